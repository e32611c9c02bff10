From d41e92a07c3bdfd8243c6542d3512a1b033d68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 01/20] fix: anycast: fail senders waiting for room when the
 channel is closed

A sender blocked on a full buffer when the channel was closed stayed blocked for
ever or, if a receiver made room, appended its message to the closed channel, even
after other receivers were told that the channel was closed.
---
 src/frequenz/channels/_anycast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..d925877 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,10 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From 2bb9453ad2f994468e675a330dd0e72fb66d443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 02/20] fix: anycast: do not lose wake-ups when a waiting task
 is cancelled

asyncio.Condition.wait() swallows a notify(1) if the notified task is cancelled
before it gets to run, leaving other senders/receivers waiting for ever even when
there is room/a message for them.
---
 src/frequenz/channels/_anycast.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index d925877..8d7e438 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -5,6 +5,7 @@
 
 from __future__ import annotations
 
+import asyncio
 import logging
 from asyncio import Condition
 from collections import deque
@@ -349,7 +350,13 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    try:
+                        await self._channel._send_cv.wait()
+                    except asyncio.CancelledError:
+                        # We might have been notified already, so we need to pass the
+                        # notification on, otherwise it would be lost.
+                        self._channel._send_cv.notify(1)
+                        raise
                 if self._channel._closed:
                     raise SenderError(
                         "The channel was closed", self
@@ -414,7 +421,13 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                try:
+                    await self._channel._recv_cv.wait()
+                except asyncio.CancelledError:
+                    # We might have been notified already, so we need to pass the
+                    # notification on, otherwise it would be lost.
+                    self._channel._recv_cv.notify(1)
+                    raise
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From 69418dce8e655c92a84efd12f6d254ed7780f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 03/20] fix: anycast: don't overwrite a ready message in
 concurrent ready() calls

When two tasks were waiting in ready() for the same receiver, the second one to be
woken up replaced the message claimed by the first one, so it was lost.
---
 src/frequenz/channels/_anycast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 8d7e438..c7dd9e6 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -428,6 +428,11 @@ class _Receiver(Receiver[_T]):
                     # notification on, otherwise it would be lost.
                     self._channel._recv_cv.notify(1)
                     raise
+                if self._next is not _Empty:
+                    # Another task made this receiver ready while we were waiting, so we
+                    # leave the message we were notified about for other receivers.
+                    self._channel._recv_cv.notify(1)
+                    return True
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From 61db6c3dfea89ef8df090322a3bb4705a243ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 04/20] fix: broadcast: resend the latest message also when it
 is None

---
 src/frequenz/channels/_broadcast.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..cad7197 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -9,7 +9,7 @@ import logging
 import weakref
 from asyncio import Condition
 from collections import deque
-from typing import Generic, TypeVar
+from typing import Generic, TypeVar, cast
 
 from ._exceptions import ChannelClosedError
 from ._generic import ChannelMessageT
@@ -216,6 +216,9 @@ class Broadcast(Generic[ChannelMessageT]):
         self._latest: ChannelMessageT | None = None
         """The latest message sent to the channel."""
 
+        self._has_latest: bool = False
+        """Whether there is a latest message (which can be any object, even `None`)."""
+
         self.resend_latest: bool = resend_latest
         """Whether to resend the latest message to new receivers.
 
@@ -258,6 +261,7 @@ class Broadcast(Generic[ChannelMessageT]):
         immediately.
         """
         self._latest = None
+        self._has_latest = False
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +288,8 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._has_latest:
+            recv.enqueue(cast(ChannelMessageT, self._latest))
         return recv
 
     def __str__(self) -> str:
@@ -340,6 +344,7 @@ class _Sender(Sender[_T]):
                 self._channel
             )
         self._channel._latest = message
+        self._channel._has_latest = True
         stale_refs = []
         for _hash, recv_ref in self._channel._receivers.items():
             recv = recv_ref()
-- 
2.43.0


From 4a5a9ee1b2ee61f1432cf723895d8d3c1d748229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 05/20] fix: event: report a pending event as active when
 stopped

ready() returned False for an event that was set and then stopped, although there
was still a message to consume, so select() never reported the stop.
---
 src/frequenz/channels/event.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..b9fdc39 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -147,10 +147,11 @@ class Event(_receiver.Receiver[None]):
         Returns:
             Whether this receiver is still running.
         """
-        if self._is_stopped:
+        # A pending event has to be consumed even if the receiver was stopped after it.
+        if self._is_stopped and not self._is_set:
             return False
         await self._event.wait()
-        return not self._is_stopped
+        return self._is_set or not self._is_stopped
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From 9cd89bcfd8666e7f26a75e152a842511151e8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 06/20] fix: file_watcher: return False from ready() when the
 watch ended

The first ready() after the end of the watch returned True, so select() reported the
stop of the file watcher twice.
---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..860c0bd 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -185,6 +185,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From cdff560f5a1a823732fd7adf931074e086b6326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 07/20] fix: file_watcher: keep working after a call to ready()
 was cancelled

Cancelling ready() (because of a timeout or when leaving a select() loop, for
example) finished the underlying awatch(), so the file watcher was stopped for ever.
---
 src/frequenz/channels/file_watcher.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 860c0bd..17069a1 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -129,16 +129,20 @@ class FileWatcher(Receiver[Event]):
         self.event_types: frozenset[EventType] = frozenset(event_types)
         """The types of events to watch for."""
 
-        self._stop_event: asyncio.Event = asyncio.Event()
         self._paths: list[pathlib.Path] = [
             path if isinstance(path, pathlib.Path) else pathlib.Path(path)
             for path in paths
         ]
+        self._start_watching()
+        self._awatch_stopped_exc: Exception | None = None
+        self._changes: set[FileChange] = set()
+
+    def _start_watching(self) -> None:
+        """Start watching for changes."""
+        self._stop_event: asyncio.Event = asyncio.Event()
         self._awatch: abc.AsyncGenerator[set[FileChange], None] = awatch(
             *self._paths, stop_event=self._stop_event, watch_filter=self._filter_events
         )
-        self._awatch_stopped_exc: Exception | None = None
-        self._changes: set[FileChange] = set()
 
     def _filter_events(
         self,
@@ -186,6 +190,11 @@ class FileWatcher(Receiver[Event]):
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
             return False
+        except asyncio.CancelledError:
+            # Cancelling awatch() finishes it, so we need a new one to be able to keep
+            # receiving events after a call to this method is cancelled.
+            self._start_watching()
+            raise
 
         return True
 
-- 
2.43.0


From 94a8a64c4020af59a5f05b2267c26f6baa7d92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 08/20] fix: timer: reject negative start delays also with
 auto_start=False

---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..c3a77a1 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -509,6 +509,9 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
+        if start_delay < timedelta(0):
+            raise ValueError(f"`start_delay` can't be negative, got {start_delay}")
+
         if start_delay > timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
-- 
2.43.0


From 43dc8a0a1895c160c82996ea80cf5d02040f6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 09/20] fix: select: don't mix up different receivers with the
 same hash

Receivers can be user-defined and implement __hash__() and __eq__(), in which case
all but one of the receivers with the same hash were ignored.
---
 src/frequenz/channels/_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index e8b6e80..18e1f1c 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -423,7 +423,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
             method.  Normal errors while receiving messages are not raised, but reported
             via the `Selected` instance.
     """
-    receivers_map: dict[str, Receiver[Any]] = {str(hash(r)): r for r in receivers}
+    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}
     pending: set[asyncio.Task[bool]] = set()
 
     try:
-- 
2.43.0


From 6888b22e275a05b6a611adbcc9ae3055d0f0d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 10/20] fix: merge: don't lose messages when a source raises an
 error

An error raised by one of the sources was raised by ready(), dropped the source from
the merge and discarded the messages received from other sources at the same time.
Now it is raised, once, when it is consumed, like with any other receiver.
---
 src/frequenz/channels/_merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..3e055e9 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque()
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -165,8 +165,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # If there was an error, it will be raised when the result is consumed
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -186,7 +186,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        return self._results.popleft().result()
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From 0a3a69fdafacba49cd9a4ef14dea89096ec51283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 11/20] fix: merge: finish cleanly and without losing messages
 on stop()

Calling stop() discarded the messages already taken from the sources and cancelled
whoever was waiting for a message, instead of reporting that the merge was stopped.
---
 src/frequenz/channels/_merge.py | 37 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 3e055e9..aa5831a 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -130,10 +130,14 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
-            task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        pending, self._pending = self._pending, set()
+        for task in pending:
+            if task.done():
+                # The message was already taken from the source, so we must deliver it.
+                self._add_result(task)
+            else:
+                task.cancel()
+        await asyncio.gather(*pending, return_exceptions=True)
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -157,20 +161,35 @@ class Merger(Receiver[ReceiverMessageT_co]):
             if len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
+            done, _ = await asyncio.wait(
                 self._pending, return_when=asyncio.FIRST_COMPLETED
             )
-            for item in done:
+            # if we were stopped while waiting, then these tasks were handled already.
+            for item in done & self._pending:
+                self._pending.remove(item)
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-                if isinstance(item.exception(), StopAsyncIteration):
+                if not self._add_result(item):
                     continue
-                # If there was an error, it will be raised when the result is consumed
-                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
 
+    def _add_result(self, task: asyncio.Task[ReceiverMessageT_co]) -> bool:
+        """Add the result of a finished task to the results, unless its source stopped.
+
+        Args:
+            task: The finished task.
+
+        Returns:
+            Whether there was a result (a message or an error).
+        """
+        if isinstance(task.exception(), StopAsyncIteration):
+            return False
+        # If there was an error, it will be raised when the result is consumed
+        self._results.append(task)
+        return True
+
     def consume(self) -> ReceiverMessageT_co:
         """Return the latest message once `ready` is complete.
 
-- 
2.43.0


From 4e3025813e5c5b399b148761c92ace5e88f3b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 12/20] fix: timer: make reset() and stop() effective for
 waiting receivers

A receiver that was already waiting for the next tick only noticed that the timer was
reset or stopped once the old tick time was reached.
---
 src/frequenz/channels/timer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index c3a77a1..d661f71 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -100,6 +100,7 @@ from __future__ import annotations
 
 import abc
 import asyncio
+import contextlib
 from datetime import timedelta
 
 from ._receiver import Receiver, ReceiverStoppedError
@@ -531,6 +532,9 @@ class Timer(Receiver[timedelta]):
         )
         """The event loop to use to track time."""
 
+        self._changed: asyncio.Event = asyncio.Event()
+        """Triggered to wake up the receivers when the timer is reset or stopped."""
+
         self._stopped: bool = True
         """Whether the timer was requested to stop.
 
@@ -610,6 +614,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = False
         self._next_tick_time = self._now() + start_delay_ms + self._interval
         self._current_drift = None
+        self._wake_up()
 
     def stop(self) -> None:
         """Stop the timer.
@@ -624,6 +629,12 @@ class Timer(Receiver[timedelta]):
         self._stopped = True
         # We need to make sure it's not None, otherwise `ready()` will start it
         self._next_tick_time = self._now()
+        self._wake_up()
+
+    def _wake_up(self) -> None:
+        """Wake up all calls to `ready()` waiting for the next tick."""
+        self._changed.set()
+        self._changed.clear()
 
     # We need a noqa here because the docs have a Raises section but the documented
     # exceptions are raised indirectly.
@@ -667,7 +678,9 @@ class Timer(Receiver[timedelta]):
         # could be reset while we are sleeping, in which case we need to recalculate
         # the time to the next tick and try again.
         while time_to_next_tick > 0:
-            await asyncio.sleep(time_to_next_tick / 1_000_000)
+            with contextlib.suppress(TimeoutError):
+                async with asyncio.timeout(time_to_next_tick / 1_000_000):
+                    await self._changed.wait()
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-- 
2.43.0


From 5a266cc513038b40e7e0ce9f89a854323ba5faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 13/20] fix: select: check again that a receiver is ready
 before consuming it

When several receivers became ready at the same time, handling one of them could make
another one not ready any more. For example, with the documented way to use a timer as
a timeout, timer.reset() made select() report an AssertionError for the timer.
---
 src/frequenz/channels/_select.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index 18e1f1c..cab6546 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -435,10 +435,22 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 pending, return_when=asyncio.FIRST_COMPLETED
             )
 
-            for task in done:
+            for index, task in enumerate(done):
                 receiver_active: bool = True
                 name = task.get_name()
                 recv = receivers_map[name]
+
+                # While the previous receivers were handled, this one could have become
+                # not ready again (if it is a timer that was reset, for example), so we
+                # need to check again, without waiting.
+                if index > 0 and not task.exception():
+                    task = asyncio.create_task(recv.ready(), name=name)
+                    pending.add(task)
+                    await asyncio.wait({task}, timeout=0)
+                    if not task.done():
+                        continue
+                    pending.remove(task)
+
                 if exception := task.exception():
                     match exception:
                         case asyncio.CancelledError():
-- 
2.43.0


From 1542cae8c881465183ef893085c70d9394976c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 14/20] fix: event: keep waiting if another task consumed the
 event

When several tasks were receiving from the same event, all of them woke up but only the
first one could consume the event, the others failed with an AssertionError.
---
 src/frequenz/channels/event.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index b9fdc39..17f0415 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -148,10 +148,12 @@ class Event(_receiver.Receiver[None]):
             Whether this receiver is still running.
         """
         # A pending event has to be consumed even if the receiver was stopped after it.
-        if self._is_stopped and not self._is_set:
-            return False
-        await self._event.wait()
-        return self._is_set or not self._is_stopped
+        # We need to loop because someone else could consume the event before us.
+        while not self._is_set:
+            if self._is_stopped:
+                return False
+            await self._event.wait()
+        return True
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From 2a90fcbcf6cbc6585c40b31fb0f187070152a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 15/20] fix: timer: don't overwrite a pending tick in
 concurrent ready() calls

When two tasks were waiting in ready() for the same timer, the second one replaced the
tick the first one made ready by the next one, if it wasn't consumed until then.
---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index d661f71..170ba7b 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -681,6 +681,9 @@ class Timer(Receiver[timedelta]):
             with contextlib.suppress(TimeoutError):
                 async with asyncio.timeout(time_to_next_tick / 1_000_000):
                     await self._changed.wait()
+            # Another task could have made the timer ready while we were waiting.
+            if self._current_drift is not None:
+                return True
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-- 
2.43.0


From 74884254870d95317396aac207a5786d91d3b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 16/20] fix: select: check readiness again after the loop body
 ran

A receiver that became ready while the body was handling another one was consumed
without checking if it still was ready. The timeout example of the timer reported a
failed assertion if the timer expired while a message was being processed, before the
call to reset().
---
 src/frequenz/channels/_select.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index cab6546..c367fc0 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -431,6 +431,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
             pending.add(asyncio.create_task(recv.ready(), name=name))
 
         while pending:
+            outdated = {task for task in pending if task.done()}
             done, pending = await asyncio.wait(
                 pending, return_when=asyncio.FIRST_COMPLETED
             )
@@ -440,10 +441,11 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 name = task.get_name()
                 recv = receivers_map[name]
 
-                # While the previous receivers were handled, this one could have become
-                # not ready again (if it is a timer that was reset, for example), so we
-                # need to check again, without waiting.
-                if index > 0 and not task.exception():
+                # If this receiver became ready before or while other receivers were
+                # handled, it could have become not ready again since then (if it is
+                # a timer that was reset, for example), so we need to check again,
+                # without waiting.
+                if (index > 0 or task in outdated) and not task.exception():
                     task = asyncio.create_task(recv.ready(), name=name)
                     pending.add(task)
                     await asyncio.wait({task}, timeout=0)
-- 
2.43.0


From bffb5844b26ab19935134b6f9210f1676622e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 17/20] fix: select: report readiness errors that are falsy

An exception class can define __bool__() or __len__(), so the result of
Task.exception() needs to be compared with None.
---
 src/frequenz/channels/_select.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index c367fc0..59dfdf9 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -445,7 +445,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 # handled, it could have become not ready again since then (if it is
                 # a timer that was reset, for example), so we need to check again,
                 # without waiting.
-                if (index > 0 or task in outdated) and not task.exception():
+                if (index > 0 or task in outdated) and task.exception() is None:
                     task = asyncio.create_task(recv.ready(), name=name)
                     pending.add(task)
                     await asyncio.wait({task}, timeout=0)
@@ -453,7 +453,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                         continue
                     pending.remove(task)
 
-                if exception := task.exception():
+                if (exception := task.exception()) is not None:
                     match exception:
                         case asyncio.CancelledError():
                             # If the receiver was cancelled, then it means we want to
@@ -498,7 +498,7 @@ async def _stop_pending_tasks(pending: set[asyncio.Task[bool]]) -> None:
         for task in done:
             if task.cancelled():
                 continue
-            if exception := task.exception():
+            if (exception := task.exception()) is not None:
                 exceptions.append(exception)
         if exceptions:
             # If the select loop is interrupted by a break or exception, then this
-- 
2.43.0


From a3fead1b387e4a14c68d91c06c66aa2979dcb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 18/20] fix: broadcast: get the logger from the logger
 hierarchy

A logger created by calling logging.Logger() is not part of the hierarchy,
so applications could neither collect nor silence the warnings about lost
messages.
---
 src/frequenz/channels/_broadcast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index cad7197..af6121f 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -16,7 +16,7 @@ from ._generic import ChannelMessageT
 from ._receiver import Receiver, ReceiverStoppedError
 from ._sender import Sender, SenderError
 
-_logger = logging.Logger(__name__)
+_logger = logging.getLogger(__name__)
 
 
 class Broadcast(Generic[ChannelMessageT]):
-- 
2.43.0


From d25792ab4472a602a83a0a79d9f72e83a96aedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 19/20] fix: broadcast: name the receiver when warning about
 lost messages

The name of a receiver is documented to identify it in the logs, but the
warning only had the name of the channel.
---
 src/frequenz/channels/_broadcast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index af6121f..f496e81 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -418,8 +418,9 @@ class _Receiver(Receiver[_T]):
         if len(self._q) == self._q.maxlen:
             self._q.popleft()
             _logger.warning(
-                "Broadcast receiver [%s] is full. Oldest message was dropped.",
+                "Broadcast receiver [%s:%s] is full. Oldest message was dropped.",
                 self,
+                self._name,
             )
         self._q.append(message)
 
-- 
2.43.0


From 31054ed3c8179f9ed15afa1355172cf4f5cbd40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 20/20] fix: merge: wait for the background tasks also when
 stop() is called again

A second stop() (called while another one is still waiting, or after one was
cancelled) found no pending tasks and returned at once, leaving the background
tasks behind.
---
 src/frequenz/channels/_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index aa5831a..0b29c57 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,6 +120,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
+        self._stopping: set[asyncio.Task[Any]] = set()
         self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque()
 
     def __del__(self) -> None:
@@ -137,7 +138,10 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 self._add_result(task)
             else:
                 task.cancel()
-        await asyncio.gather(*pending, return_exceptions=True)
+                self._stopping.add(task)
+        # Someone else might be stopping us too, so we wait for the same tasks.
+        await asyncio.gather(*self._stopping, return_exceptions=True)
+        self._stopping.clear()
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
-- 
2.43.0

