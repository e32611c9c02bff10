"""select() and merge(): fairness."""

from hypothesis import strategies as st

from ..engines.mux_props import make

PROP = make(
    st.sampled_from(["select", "merge"]),
    ["feed", "step", "settle", "feed", "feedmany", "start", "err", "advance", "feedmany"],
    ["feedmany", "feedmany", "step"],
    {"contended"},
    ("scripted", "evil", "anycast", "broadcast", "map", "mapany", "event", "scripted"),
    ("none", "none", "none", "none"),
    ["none", "yield", "feed", "feed2", "feedall", "feed2", "feedsleep", "none"],
    {"fair", "late"},
    "a source was ready (for at least 12 loop iterations) while another one was served",
    8_000, 200_000, 120, (2, 6),
)
