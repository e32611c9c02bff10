"""Anycast: exactly once, in order."""

from ..engines.anycast_props import limits, make

PROP = make(
    ["send", "recv", "step", "recv", "consume", "ready", "burst", "settle", "flood", "drain", "new", "send", "close"],
    {"delivered-2+"}, {"close"}, {"deliver", "order", "failed-send"},
    "at least two messages were delivered in a program with at least two tasks",
    limits(6), 24_000, 400_000,
)
