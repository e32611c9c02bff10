"""A file system change notifier under the control of the harness.

Only the operating system part of watchfiles is replaced (its Rust object and the thread
that waits for it): the real watchfiles.awatch() and its filtering run.
"""

from __future__ import annotations

import asyncio
import contextlib
import pathlib
from typing import Any, Iterator

import anyio
import anyio._backends._asyncio  # noqa: F401  (imported lazily otherwise)
import watchfiles.main


class FakeNotify:
    """Stands in for watchfiles' RustNotify."""

    fs: FakeFS

    def __init__(self, paths: list[str], debug: bool, force_polling: bool, poll_delay_ms: int, recursive: bool,
                 ignore_permission_denied: bool) -> None:
        self.paths = [pathlib.PurePath(p) for p in paths]
        self.recursive = recursive
        self.buffer: set[tuple[int, str]] = set()
        self.open = False
        self.ended = False
        self.timed_out = False
        self.waiter: asyncio.Future[None] | None = None

    def __enter__(self) -> FakeNotify:
        self.open = True
        self.fs.watchers.append(self)
        return self

    def __exit__(self, *args: Any) -> None:
        self.open = False
        self.fs.watchers.remove(self)

    def close(self) -> None:
        self.open = False

    def watch(self, debounce: int, step: int, timeout: int, stop_event: Any) -> Any:
        raise AssertionError("only called through run_sync")

    def covers(self, path: str) -> bool:
        p = pathlib.PurePath(path)
        for w in self.paths:
            if p == w or p.parent == w or (self.recursive and w in p.parents):
                return True
        return False

    def wake(self) -> None:
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    async def next(self, stop_event: Any) -> Any:
        """What the watch() call in the thread does."""
        while True:
            if stop_event.is_set():
                return "stop"
            if self.buffer:
                changes, self.buffer = self.buffer, set()
                self.fs.fetched(self, changes)
                return changes
            if self.ended:
                return "stop"
            if self.timed_out:
                self.timed_out = False
                return "timeout"
            self.waiter = asyncio.get_running_loop().create_future()
            stopper = asyncio.ensure_future(stop_event.wait())
            self.fs.own_tasks.append(stopper)
            stopper.add_done_callback(lambda t: None if t.cancelled() else self.wake())
            try:
                await self.waiter
            finally:
                stopper.cancel()
                self.waiter = None


class FakeFS:
    """All watchers of a case."""

    def __init__(self) -> None:
        self.watchers: list[FakeNotify] = []
        self.own_tasks: list[Any] = []

    def fetched(self, watcher: FakeNotify, changes: set[tuple[int, str]]) -> None:
        """Changes were handed out."""

    def change(self, batch: set[tuple[int, str]]) -> None:
        """Changes happen at the same time."""
        for w in self.watchers:
            hit = {(c, p) for c, p in batch if w.covers(p)}
            if hit:
                w.buffer |= hit
                w.wake()

    def timeout(self) -> None:
        """Nothing happened for a while."""
        for w in self.watchers:
            if w.waiter is not None:
                w.timed_out = True
                w.wake()

    def end(self) -> None:
        """The operating system ends all watches."""
        for w in self.watchers:
            w.ended = True
            w.wake()

    @contextlib.contextmanager
    def installed(self) -> Iterator[None]:
        """Replace the real thing."""
        fs = self

        class Notify(FakeNotify):
            pass

        Notify.fs = fs

        async def run_sync(func: Any, *args: Any, **kwargs: Any) -> Any:
            if isinstance(getattr(func, "__self__", None), FakeNotify):
                return await func.__self__.next(args[-1])
            raise AssertionError(f"unexpected thread {func}")

        old = watchfiles.main.RustNotify, anyio.to_thread.run_sync
        watchfiles.main.RustNotify = Notify  # type: ignore
        anyio.to_thread.run_sync = run_sync  # type: ignore
        try:
            yield
        finally:
            watchfiles.main.RustNotify, anyio.to_thread.run_sync = old  # type: ignore
