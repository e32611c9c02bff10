"""select(): leaving the loop."""

from hypothesis import strategies as st

from ..engines.mux_props import make

PROP = make(
    st.just("select"),
    ["feed", "start", "step", "settle", "feed", "close", "exit", "exit", "advance", "feedmany", "err", "start", "rdy"],
    ["feed", "start", "exit", "step"],
    {"left-with-pending", "left-with-several-pending", "exit-while-waiting+&+select-again"},
    ("scripted", "evil", "anycast", "merge", "broadcast", "map", "event", "mapany"),
    ("none", "aclose", "break", "unhandled", "wrong", "raise", "aclose-break", "none"),
    ["none", "yield", "sleep", "feed", "feed2", "feedall", "close", "feedsleep", "steal", "steal"],
    {"leak", "conserve", "item", "deaf"},
    "a select loop was left (break, error, unclaimed item, cancellation) while a receiver had something to "
    "deliver, or cancelled while waiting and followed by another one",
    16_000, 200_000,
)
