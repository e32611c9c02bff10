"""select(): content of the loop."""

from hypothesis import strategies as st

from ..engines.mux_props import make

PROP = make(
    st.just("select"),
    ["feed", "start", "step", "settle", "feed", "close", "exit", "err", "advance", "feedmany", "rdy"],
    ["feed", "start", "settle", "step", "close"],
    {"waiting+&+delivered-3+"},
    ("scripted", "evil", "anycast", "evil", "broadcast", "map", "event", "mapany"),
    ("none", "none", "none", "break", "unhandled", "wrong", "raise", "none"),
    ["none", "yield", "sleep", "feed", "feed2", "feedall", "close", "feedsleep", "steal", "steal"],
    {"item", "stop", "late", "claim"},
    "a select loop came to rest waiting for messages and at least four items were delivered",
    12_000, 200_000,
)
