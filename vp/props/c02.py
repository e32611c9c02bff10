"""Anycast: bounded buffer, no lost wake-up."""

from ..engines.anycast_props import limits, make

PROP = make(
    ["send", "burst", "recv", "step", "settle", "flood", "drain", "consume", "ready", "new", "burst", "recv"],
    {"blocked-sender", "blocked-senders-2+", "blocked-receiver", "blocked-receivers-2+"},
    set(), {"capacity", "stall"},
    "at some point of rest at least one sender or receiver was blocked",
    limits(4), 24_000, 400_000,
)
