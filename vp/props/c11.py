"""merge(): content of the stream."""

from hypothesis import strategies as st

from ..engines.mux_props import make

PROP = make(
    st.just("merge"),
    ["feed", "start", "step", "settle", "feed", "close", "read2", "err", "advance", "feedmany", "rdy"],
    ["feed", "start", "settle", "step", "close"],
    {"waiting+&+delivered-3+"},
    ("scripted", "evil", "anycast", "merge", "broadcast", "map", "event", "mapmerge"),
    ("none", "none", "none", "break", "none", "none", "none", "none"),
    ["none", "yield", "sleep", "feed", "feed2", "feedall", "close", "feedsleep"],
    {"item", "stop", "late", "conserve", "deaf"},
    "a reader of the merge came to rest waiting for messages and at least four items were delivered",
    16_000, 200_000,
)
