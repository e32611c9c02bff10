"""Broadcast: resend_latest."""

from hypothesis import strategies as st

from ..engines.broadcast_props import make

PROP = make(
    ["send", "new", "recv", "step", "toggle", "settle", "new", "close", "wrap", "drop", "send", "ready", "consume",
     "settle", "send", "new", "drop", "toggle"],
    ["send", "new", "recv", "settle"],
    {"resent"}, {"close", "toggle", "drop"}, {"stream", "close", "stall"},
    "a receiver was created with a latest message to be resent to it",
    st.sampled_from([1, 1, 0]), 20_000, 400_000, 4,
)
