"""Anycast: close."""

from ..engines.anycast_props import limits, make

PROP = make(
    ["send", "burst", "recv", "step", "settle", "flood", "drain", "close", "consume", "ready", "recv", "burst"],
    {"closed+&+delivered-2+", "closed+&+send-failed-waiting", "closed+&+blocked-receiver",
     "closed+&+blocked-receivers-2+"},
    {"close"}, {"close", "failed-send"},
    "the channel was closed and either two messages were delivered, a waiting send() failed, or a "
    "receiver was blocked before",
    limits(4), 24_000, 400_000,
)
