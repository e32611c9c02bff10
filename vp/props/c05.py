"""Broadcast: every message to every receiver, dropping only the oldest."""

from hypothesis import strategies as st

from ..engines.broadcast_props import make

PROP = make(
    ["send", "recv", "send", "step", "new", "settle", "consume", "ready", "recv", "send", "flood"],
    ["send", "recv", "new"],
    {"several-receivers-served", "overflow+&+delivered"}, set(), {"stream", "block", "stall", "close"},
    "messages were read from several receivers, or a receiver overflowed and was read",
    st.just(0), 20_000, 400_000,
)
