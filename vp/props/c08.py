"""Broadcast: receivers come, wait, get cancelled and go."""

from hypothesis import strategies as st

from ..engines.broadcast_props import make

PROP = make(
    ["send", "recv", "cancel", "step", "drop", "wrap", "new", "settle", "ready", "consume", "recv", "send", "cancel",
     "close", "reads", "race", "race"],
    ["send", "recv", "new", "wrap", "drop", "cancel"],
    {"cancelled+&+delivered", "dropped-receiver+&+delivered", "wrapped"}, {"cancel", "drop", "close"},
    {"stall", "stream", "leak", "close", "block", "deaf"},
    "a message was read and a task was cancelled, a receiver was dropped or a wrapped receiver served",
    st.integers(0, 1), 20_000, 400_000,
)
