"""Anycast: cancellation."""

from ..engines.anycast_props import limits, make

PROP = make(
    ["send", "burst", "recv", "step", "cancel", "settle", "ready", "consume", "recv", "cancel", "close", "reads", "race", "race", "burst", "flood", "drain"],
    {"cancelled+&+delivered-2+", "cancelled+&+blocked-sender", "cancelled+&+blocked-senders-2+",
     "cancelled+&+blocked-receivers-2+"},
    {"cancel", "close"}, {"deliver", "order", "failed-send", "stall", "capacity", "deaf"},
    "a live task was cancelled in a program that delivered two messages or had a blocked sender or "
    "two blocked receivers",
    limits(3), 24_000, 400_000,
)
