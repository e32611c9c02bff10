"""Broadcast: close."""

from hypothesis import strategies as st

from ..engines.broadcast_props import make

PROP = make(
    ["send", "recv", "step", "close", "new", "settle", "consume", "ready", "recv", "send", "wrap"],
    ["send", "recv", "new", "close"],
    {"closed+&+delivered", "closed+&+blocked"}, {"close"}, {"close", "stream"},
    "the channel was closed and some message was read or some receiver was blocked",
    st.integers(0, 1), 20_000, 400_000,
)
