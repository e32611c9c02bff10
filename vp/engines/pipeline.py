"""Acyclic pipelines of channels, forwarding tasks, map, merge and select.

Every message carries the path it took (one tag per map and per forwarding task), so that
the topology tells exactly which paths must come out where, and how often.
"""

from __future__ import annotations

import asyncio
import itertools
from typing import Any

from hypothesis import strategies as st

from frequenz.channels import Anycast, Broadcast, ReceiverStoppedError, merge, select, selected_from

from ..core import Ctx, Sim, pick, texc, yields

MAX_TRAFFIC = 240


class Msg:
    """A message and its way; falsy and equal to all others."""

    __slots__ = ("inp", "seq", "path")

    def __init__(self, inp: int, seq: int, path: tuple[int, ...] = ()) -> None:
        self.inp = inp
        self.seq = seq
        self.path = path

    def via(self, tag: int) -> Msg:
        return Msg(self.inp, self.seq, (*self.path, tag))

    def __bool__(self) -> bool:
        return False

    def __eq__(self, other: object) -> bool:
        return True

    def __hash__(self) -> int:
        return 1

    def __repr__(self) -> str:
        return f"{self.inp}.{self.seq}{list(self.path)}"


Flow = tuple[int, tuple[frozenset[tuple[int, ...]], ...]]
"""An input, and for every stage passed the tags of the alternatives (workers of a pool)."""


class Chan:
    """A channel of the pipeline."""

    def __init__(self, name: str, kind: int, limit: int) -> None:
        self.kind = "anycast" if kind % 2 else "broadcast"
        self.limit = 1 + limit
        self.chan: Any = Anycast(name=name, limit=self.limit) if kind % 2 else Broadcast(name=name)
        self.flows: list[Flow] = []
        self.writers = 0
        self.used = False
        self.readers: list[Any] = []

    async def done(self) -> None:
        self.writers -= 1
        if not self.writers:
            await self.chan.close()


class Sink:
    """Reads one end of the pipeline."""

    def __init__(self, chan: Chan, recv: Any, style: int) -> None:
        self.chan = chan
        self.recv = recv
        self.style = style
        self.got: list[Msg] = []
        self.task: Any = None
        self.ended = False


class Forwarder:
    """A task that forwards what it reads."""

    def __init__(self, tag: int, recvs: list[Any], out: Chan, style: int) -> None:
        self.tag = tag
        self.recvs = recvs
        self.out = out
        self.style = style
        self.task: Any = None
        self.reading = False
        self.ended = False
        self.restart = False


class PipeSim(Sim):
    """Interprets a case."""

    CODES = ("feed", "feed", "step", "settle", "restart", "sink", "close", "feed", "step", "restart")

    def __init__(self, case: dict[str, Any], ctx: Ctx) -> None:
        super().__init__(ctx, hseed=case["hseed"])
        self.case = case
        self.tags = itertools.count(1)
        self.chans: list[Chan] = []
        self.inputs: list[Chan] = []
        self.left: list[int] = []
        self.sent: list[int] = []
        self.feeders: list[Any] = []
        self.closed: set[int] = set()
        self.fwds: list[Forwarder] = []
        self.sinks: list[Sink] = []
        self.restarts = 0

    # --- building --------------------------------------------------------------
    def traffic(self, flows: list[Flow]) -> int:
        return sum(self.sizes[inp] for inp, _ in flows)

    def plan(self, expr: Any, banned: Any) -> Any:
        """Resolve the channels of an expression."""
        if isinstance(expr, list) and len(expr) > 1 and expr[0] == 1:
            inner = self.plan(expr[1], banned)
            return None if inner is None else ("map", inner)
        if isinstance(expr, list) and len(expr) > 1 and expr[0] == 2:
            parts = [p for p in (self.plan(e, banned) for e in expr[1:4]) if p is not None]
            return ("merge", parts) if parts else None
        i = expr[1] if isinstance(expr, list) and len(expr) > 1 and isinstance(expr[1], int) else 0
        able = [c for c in self.chans if c is not banned and not (c.kind == "anycast" and c.used)]
        if not able:
            return None
        chan = able[i % len(able)] if i < 4 else able[-1 - i % len(able)]
        chan.used = True
        return ("chan", chan)

    def instance(self, plan: Any) -> tuple[Any, list[tuple[int, Chan, tuple[int, ...]]]]:
        """Receivers for a plan, and the channels and tags of its leaves."""
        if plan[0] == "chan":
            chan = plan[1]
            recv = chan.chan.new_receiver() if chan.kind == "anycast" else chan.chan.new_receiver(
                limit=max(1, self.traffic(chan.flows)))
            return recv, [(id(plan), chan, ())]
        if plan[0] == "map":
            tag = next(self.tags)
            recv, leaves = self.instance(plan[1])
            return recv.map(lambda m: m.via(tag)), [(k, c, (*t, tag)) for k, c, t in leaves]
        parts = [self.instance(p) for p in plan[1]]
        self.ctx.label("merge")
        return merge(*(r for r, _ in parts)), [x for _, leaves in parts for x in leaves]

    def build(self) -> None:
        case = self.case
        self.sizes = [n for _, _, n in case["inputs"]]
        self.left = list(self.sizes)
        for i, (kind, limit, _) in enumerate(case["inputs"]):
            chan = Chan(f"in{i}", kind, limit)
            chan.flows.append((i, ()))
            chan.writers = 1
            self.chans.append(chan)
            self.inputs.append(chan)
            self.sent.append(0)
        for n, (exprs, style, workers, join, kind, limit) in enumerate(case["stages"]):
            out = self.chans[-1] if join and len(self.chans) > len(self.inputs) and not self.chans[-1].used else None
            before = [c for c in self.chans if c.used]
            plans = [p for p in (self.plan(e, out) for e in exprs) if p is not None]
            flows: dict[int, Flow | Any] = {}
            if not plans:
                continue
            if out is None:
                out = Chan(f"c{n}", kind, limit)
                new = True
            else:
                new = False
                self.ctx.label("join")
            count = 1 + workers
            extra = sum(self.traffic(c.flows) * (count if c.kind == "broadcast" else 1) for c in self.leaves(plans))
            if self.traffic(out.flows) + extra > MAX_TRAFFIC:
                for c in self.chans:
                    c.used = c in before
                continue
            pooled: dict[int, tuple[Chan, set[tuple[int, ...]]]] = {}
            for _ in range(count):
                tag = next(self.tags)
                parts = [self.instance(p) for p in plans]
                for key, chan, tags in (x for _, leaves in parts for x in leaves):
                    step = (*tags, tag)
                    if chan.kind == "anycast":
                        pooled.setdefault(key, (chan, set()))[1].add(step)
                    else:
                        out.flows += [(inp, (*steps, frozenset([step]))) for inp, steps in chan.flows]
                self.fwds.append(Forwarder(tag, [r for r, _ in parts], out, style))
                out.writers += 1
                if len(parts) > 1:
                    self.ctx.label("select")
            for chan, alternatives in pooled.values():
                out.flows += [(inp, (*steps, frozenset(alternatives))) for inp, steps in chan.flows]
                if len(alternatives) > 1:
                    self.ctx.label("pool")
            if new:
                self.chans.append(out)
        for i, chan in enumerate(self.chans):
            extra_bits = case["sinks"]
            if chan.kind == "anycast" and chan.used:
                continue
            if chan.used and not extra_bits >> (i % 6) & 1:
                continue
            for j in range(1 + (extra_bits >> ((i + 3) % 6) & 1)):
                recv = chan.chan.new_receiver() if chan.kind == "anycast" else chan.chan.new_receiver(
                    limit=max(1, self.traffic(chan.flows)))
                self.sinks.append(Sink(chan, recv, case["style"] + i + j))

    def leaves(self, plans: list[Any]) -> list[Chan]:
        found: list[Chan] = []
        for p in plans:
            if p[0] == "chan":
                found.append(p[1])
            else:
                found += self.leaves(p[1] if p[0] == "merge" else [p[1]])
        return found

    # --- tasks -----------------------------------------------------------------
    async def feeder(self, i: int, count: int, gap: int) -> None:
        sender = self.inputs[i].chan.new_sender()
        for n in range(count):
            self.sent[i] += 1
            await sender.send(Msg(i, self.sent[i] - 1))
            if n < count - 1:
                await yields(gap)
        if not self.left[i] and self.case["hurry"] >> (i % 3) & 1 and i not in self.closed:
            # the last message is followed by the end at once, before anything could react to it
            self.closed.add(i)
            self.ctx.label("closed-at-once")
            await self.inputs[i].done()

    async def forward(self, f: Forwarder) -> None:
        sender = f.out.chan.new_sender()
        try:
            async def passing(msg: Msg) -> None:
                f.reading = False
                await sender.send(msg.via(f.tag))
                f.reading = True

            if f.restart:
                # cancelled before it ran, or while it was reading
                f.restart = False
            f.reading = True
            style = f.style % 4
            if len(f.recvs) > 1 or style == 3:
                f.style = 3
                async for sel in select(*f.recvs):
                    f.reading = False
                    for r in f.recvs:
                        if selected_from(sel, r):
                            if not sel.was_stopped:
                                await sender.send(sel.message.via(f.tag))
                            break
                    else:
                        self.fail("flow", "an item of select() is from nowhere")
                    f.reading = True
            elif style == 0:
                async for msg in f.recvs[0]:
                    await passing(msg)
            elif style == 1:
                while True:
                    try:
                        msg = await f.recvs[0].receive()
                    except ReceiverStoppedError:
                        break
                    await passing(msg)
            else:
                while await f.recvs[0].ready():
                    if f.tag % 2:
                        # a message may be announced long before it is taken, and more than once
                        await yields(f.tag % 5)
                        if not await f.recvs[0].ready():
                            self.fail("flow", "an announced message is gone")
                    await passing(f.recvs[0].consume())
            f.reading = False
        except asyncio.CancelledError:
            if f.restart:
                return
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("flow", f"a forwarding task got {texc(exc)}")
            return
        f.ended = True
        await f.out.done()

    async def collect(self, s: Sink) -> None:
        try:
            if s.style % 3 == 0:
                async for msg in s.recv:
                    s.got.append(msg)
            elif s.style % 3 == 1:
                while True:
                    s.got.append(await s.recv.receive())
            else:
                async for sel in select(s.recv):
                    if selected_from(sel, s.recv) and not sel.was_stopped:
                        s.got.append(sel.message)
        except asyncio.CancelledError:
            raise
        except ReceiverStoppedError:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            self.fail("flow", f"a sink got {texc(exc)}")
            return
        s.ended = True

    # --- driver ----------------------------------------------------------------
    def start_fwd(self, f: Forwarder) -> None:
        f.reading = False
        f.task = self.spawn(self.forward(f))

    def op(self, code: str, a: int, b: int, c: int) -> None:
        i = a % len(self.inputs)
        if code == "feed":
            count = min(self.left[i], 1 + b)
            if count and i not in self.closed:
                self.left[i] -= count
                self.feeders[i].append(self.spawn(self.feeder(i, count, c % 3)) if not self.feeding(i) else count)
                if isinstance(self.feeders[i][-1], int):
                    self.left[i] += self.feeders[i].pop()  # one feeder at a time keeps the order of an input known
        elif code == "step":
            self.step(1 + a)
        elif code == "settle":
            self.settle()
        elif code == "restart":
            if self.fwds:
                f = pick(self.fwds, a)
                if f.task is None:
                    self.start_fwd(f)
                elif not f.task.done() and f.reading:
                    f.restart = True
                    f.task.cancel()
                    self.restarts += 1
                    self.settle()
                    self.ctx.check(f.task.done(), "stuck", "a cancelled forwarding task does not end")
                    if not f.ended:
                        if b % 2:
                            self.later.append(f)
                        else:
                            self.start_fwd(f)
                elif f in self.later:
                    self.later.remove(f)
                    self.start_fwd(f)
        elif code == "sink":
            s = pick(self.sinks, a)
            if s.task is None:
                s.task = self.spawn(self.collect(s))
        elif code == "close":
            if c % 2 and not self.feeding(i) and i not in self.closed:
                self.left[i] = 0
                self.closed.add(i)
                self.spawn(self.inputs[i].done())
        self.raise_failure()

    def feeding(self, i: int) -> bool:
        return any(not t.done() for t in self.feeders[i])

    def body(self) -> None:
        self.later: list[Forwarder] = []
        self.build()
        self.feeders = [[] for _ in self.inputs]
        early = self.case["early"]
        for n, f in enumerate(self.fwds):
            if early >> (n % 3) & 1:
                self.start_fwd(f)
        bag = self.case["bag"]
        for code, a, b, c in self.case["ops"]:
            self.op(self.CODES[pick(bag, code) % len(self.CODES)], a, b, c)
        for f in self.fwds:
            if f.task is None:
                self.start_fwd(f)
        for f in self.later:
            self.start_fwd(f)
        for s in self.sinks:
            if s.task is None:
                s.task = self.spawn(self.collect(s))
        if self.case["hurry"] & 8:
            for n, i in enumerate(range(len(self.inputs))):
                if self.case["hurry"] & 16 and n:
                    self.step(1 + n)
                self.op("feed", i, MAX_TRAFFIC, self.case["early"])
        self.settle()
        for i in range(len(self.inputs)):
            self.ctx.check(not self.feeding(i), "stuck", f"the senders of input {i} wait for ever")
        self.judge("flow")
        order = list(range(len(self.inputs)))
        for i in order if self.case["early"] % 2 else reversed(order):
            if i not in self.closed:
                self.closed.add(i)
                self.spawn(self.inputs[i].done())
                if self.case["style"] % 2:
                    self.settle()
        self.settle()
        for f in self.fwds:
            self.ctx.check(f.ended, "end", "a forwarding task does not end after the inputs were closed")
        for s in self.sinks:
            self.ctx.check(s.ended, "end", "a sink does not end after the inputs were closed")
        live = self.loop.live_tasks()
        self.ctx.check(not live, "leak", f"{len(live)} tasks are left behind: {live[:3]}")
        self.judge("flow")
        depth = max((len(steps) for c in self.chans for _, steps in c.flows), default=0)
        self.ctx.label(f"depth-{min(depth, 4)}")
        if sum(len(s.got) for s in self.sinks) >= 4:
            self.ctx.label("delivered-4+")
        if self.restarts:
            self.ctx.label("restarted")

    def judge(self, tag: str) -> None:
        """What came out is what the topology prescribes."""
        groups: dict[int, list[Sink]] = {}
        for s in self.sinks:
            groups.setdefault(id(s.chan) if s.chan.kind == "anycast" else id(s), []).append(s)
        for sinks in groups.values():
            chan = sinks[0].chan
            name = chan.chan.name
            expected: dict[Flow, int] = {}
            for flow in chan.flows:
                expected[flow] = expected.get(flow, 0) + 1
            lookup: dict[tuple[int, tuple[int, ...]], Flow] = {}
            for flow in expected:
                for way in itertools.product(*flow[1]):
                    lookup[flow[0], tuple(itertools.chain(*way))] = flow
            counts: dict[Flow, list[int]] = {f: [0] * self.sent[f[0]] for f in expected}
            for s in sinks:
                seen: dict[tuple[int, tuple[int, ...]], dict[int, int]] = {}
                last: dict[tuple[int, tuple[int, ...]], int] = {}
                for m in s.got:
                    found = lookup.get((m.inp, m.path))
                    if found is None or m.seq >= len(counts[found]):
                        self.ctx.fail(tag, f"{m!r} came out at {name}, there is no such path")
                        return
                    counts[found][m.seq] += 1
                    mine = seen.setdefault((m.inp, m.path), {})
                    mine[m.seq] = mine.get(m.seq, 0) + 1
                    if expected[found] == 1:
                        if m.seq < last.get((m.inp, m.path), -1):
                            self.ctx.fail(tag, f"{m!r} came out at {name} after number {last[m.inp, m.path]}")
                        last[m.inp, m.path] = m.seq
                    elif m.seq and len(sinks) == 1 and all(len(x) == 1 for x in found[1]):
                        if mine[m.seq] > mine.get(m.seq - 1, 0):
                            self.ctx.fail(tag, f"{m!r} came out at {name} before its predecessor")
            for flow, got in counts.items():
                bad = [q for q, k in enumerate(got) if k != expected[flow]]
                if bad:
                    self.ctx.fail(
                        tag, f"message {flow[0]}.{bad[0]} came out {got[bad[0]]} times at {name} via "
                        f"{[sorted(x) for x in flow[1]]}, not {expected[flow]} times"
                    )


EXPR = st.recursive(
    st.integers(0, 7).map(lambda i: [0, i]),
    lambda inner: st.one_of(
        inner.map(lambda x: [1, x]),
        st.lists(inner, min_size=1, max_size=3).map(lambda xs: [2, *xs]),
    ),
    max_leaves=3,
)
STAGE = st.tuples(
    st.lists(EXPR, min_size=1, max_size=3), st.integers(0, 3), st.integers(0, 2), st.integers(0, 1), st.integers(0, 1),
    st.integers(0, 3),
).map(list)


def run(case: dict[str, Any], ctx: Ctx) -> None:
    PipeSim(case, ctx).run()
