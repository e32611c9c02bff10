"""merge(): stopping and dropping."""

from hypothesis import strategies as st

from ..engines.mux_props import make

PROP = make(
    st.just("merge"),
    ["feed", "start", "step", "settle", "feed", "close", "exit", "exit", "read2", "advance", "feedmany", "err"],
    ["feed", "start", "exit", "step"],
    {"stop-waiting", "dropped", "stop-without-reader", "merge-read-to-the-end"},
    ("scripted", "evil", "anycast", "merge", "broadcast", "map", "event", "mapany"),
    ("none", "none", "break", "raise", "none", "none", "none", "none"),
    ["none", "yield", "sleep", "feed", "feed2", "feedall", "close", "feedsleep"],
    {"mleak", "waiter", "after", "conserve", "item"},
    "a merge was stopped while a read was waiting or while nothing was reading it, was dropped, or was read to its end",
    14_000, 200_000,
)
