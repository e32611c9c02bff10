"""Receivers composed of end points, map() and merge(), built from a description."""

from __future__ import annotations

import itertools
from datetime import timedelta
from typing import Any, Callable, NamedTuple

from frequenz.channels import Anycast, Broadcast, ReceiverError, merge
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import FileWatcher
from frequenz.channels.timer import Timer, TriggerAllMissed

from ..core import FalsyError, Sim, make_msg, pick
from ..fakewatch import FakeFS
from .mux import Boom, Evil, Scripted

LEAVES = ("scripted", "anycast", "broadcast", "event", "timer", "watcher", "evil")


class Mapped:
    """What map function number tag made out of inner."""

    __slots__ = ("tag", "inner")

    def __init__(self, tag: int, inner: Any) -> None:
        self.tag = tag
        self.inner = inner

    def __repr__(self) -> str:
        return f"f{self.tag}({self.inner!r})"


class Leaf:
    """An end point and the items it has to deliver."""

    def __init__(self, tree: Tree, idx: int, kind: str, maps: tuple[int, ...], in_merge: bool) -> None:
        self.tree = tree
        self.sim = tree.sim
        self.kind = kind
        self.idx = idx
        self.maps = maps
        self.in_merge = in_merge
        self.fed: list[tuple[str, Any]] = []
        self.got = 0
        self.closed = False
        self.sender: Any = None
        self.chan: Any = None
        name = f"{kind}{idx}"
        if kind == "scripted":
            self.recv: Any = Scripted(name)
        elif kind == "evil":
            self.recv = Evil(name)
        elif kind == "anycast":
            self.chan = Anycast(name=name, limit=300)
        elif kind == "broadcast":
            self.chan = Broadcast(name=name)
        elif kind == "event":
            self.recv = Event(name=name)
        elif kind == "timer":
            self.recv = Timer(timedelta(seconds=1), TriggerAllMissed())
        else:
            self.recv = FileWatcher([f"/w{idx}"])
        if self.chan is not None:
            self.recv = self.chan.new_receiver() if kind == "anycast" else self.chan.new_receiver(limit=300)
            self.sender = self.chan.new_sender()

    @property
    def avail(self) -> bool:
        return self.got < len(self.fed)

    @property
    def exhausted(self) -> bool:
        return self.closed and not self.avail

    def feed(self, kind: str, which: int) -> bool:
        if self.closed or self.kind == "timer":
            return False
        n = self.tree.next_item()
        if kind == "err":
            if not isinstance(self.recv, Scripted):
                return False
            exc = (Boom(n), ReceiverError("receiver error", self.recv), ValueError(n), FalsyError(n))[n % 4]
            self.fed.append(("err", exc))
            self.recv.put("err", exc)
            return True
        value = make_msg((0, 1, 4, 6, 7)[which % 5], n)
        if isinstance(self.recv, Scripted):
            self.fed.append(("msg", value))
            self.recv.put("msg", value)
        elif self.sender is not None:
            self.fed.append(("msg", value))
            self.sim.spawn(self.sender.send(value))
        elif self.kind == "event":
            if not self.recv.is_set:
                self.fed.append(("msg", None))
            self.recv.set()
        else:
            path = f"/w{self.idx}/{n}"
            mine = [w for w in self.tree.fs.watchers if w.covers(path)]
            if not mine or mine[0].buffer:
                return False
            self.fed.append(("msg", path))
            self.tree.fs.change({(1 + which % 3, path)})
        return True

    def close(self) -> None:
        if self.closed:
            return
        if self.kind == "watcher":
            mine = [w for w in self.tree.fs.watchers if w.covers(f"/w{self.idx}/x")]
            if not mine:
                return
            mine[0].ended = True
            mine[0].wake()
        elif self.kind in ("event", "timer"):
            self.recv.stop()
        elif self.chan is not None:
            self.sim.spawn(self.chan.close())
        else:
            self.recv.close()
        self.closed = True

    def matches(self, kind: str, value: Any) -> bool:
        """Is this the next item?"""
        if not self.avail:
            return False
        k, v = self.fed[self.got]
        if k != kind:
            return False
        if kind == "msg":
            for tag in self.maps:
                if type(value) is not Mapped or value.tag != tag:
                    return False
                value = value.inner
            if self.kind == "timer":
                return isinstance(value, timedelta) and value >= timedelta(0)
            if self.kind == "watcher":
                return str(getattr(value, "path", None)) == v
        return v is value


class Node(NamedTuple):
    """A receiver of a tree."""

    recv: Any
    kind: str
    origins: tuple[Any, ...]
    """The receiver itself and, for maps, the ones below that it passes on."""
    chan: Any
    leaves: list[Leaf]


class Tree:
    """A receiver."""

    def __init__(self, sim: Sim, spec: Any, fs: FakeFS, *, leaves: tuple[str, ...] = LEAVES,
                 wrap: Callable[[int, Any], Any] = Mapped, first: int = 0) -> None:
        self.sim = sim
        self.fs = fs
        self.kinds = leaves
        self.wrap = wrap
        self.first = first
        self.leaves: list[Leaf] = []
        self.nodes: list[Node] = []
        self.mergers: list[Any] = []
        self.nmaps = 0
        self.depth = 0
        self._n = itertools.count(1 + 1000 * first)
        self.top = self.build(spec, (), False, 0)
        self.root = self.top.recv

    def next_item(self) -> int:
        return next(self._n)

    def build(self, spec: Any, maps: tuple[int, ...], in_merge: bool, depth: int) -> Node:
        self.depth = max(self.depth, depth)
        if not isinstance(spec, list) or not spec or spec[0] == 0 or len(spec) < 2:
            kind = spec[1] if isinstance(spec, list) and len(spec) > 1 and isinstance(spec[1], int) else 0
            name = pick(self.kinds, kind)
            if (name == "timer" and in_merge) or (name == "event" and any(x.kind == "event" for x in self.leaves)):
                name = "scripted"
            leaf = Leaf(self, self.first + len(self.leaves), name, maps, in_merge)
            self.leaves.append(leaf)
            node = Node(leaf.recv, "leaf", (leaf.recv,), leaf.chan, [leaf])
        elif spec[0] == 1:
            self.nmaps += 1
            tag = self.nmaps
            inner = self.build(spec[1], (*maps, tag), in_merge, depth + 1)
            recv = inner.recv.map(lambda x: self.wrap(tag, x))
            node = Node(recv, "map", (recv, *inner.origins), inner.chan, inner.leaves)
        else:
            children = [self.build(s, maps, True, depth + 1) for s in spec[1:4]]
            recv = merge(*(x.recv for x in children))
            self.mergers.append(recv)
            node = Node(recv, "merge", (recv,), None, [x for c in children for x in c.leaves])
        self.nodes.append(node)
        return node

    @property
    def avail(self) -> bool:
        return any(x.avail for x in self.leaves)

    @property
    def exhausted(self) -> bool:
        return all(x.exhausted for x in self.leaves)

    def take(self, kind: str, value: Any) -> Leaf | None:
        for leaf in self.leaves:
            if leaf.matches(kind, value):
                leaf.got += 1
                return leaf
        return None

    def expected(self) -> str:
        return str([(f"via {x.maps}" if x.maps else "", x.fed[x.got]) for x in self.leaves if x.avail])
