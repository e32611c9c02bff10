"""Timer: ticks, drifts and policies."""

from ..engines.timer_props import make

PROP = make(
    ["recv", "advance", "block", "ready", "consume", "settle", "step", "select", "event", "advance"],
    ["recv", "advance", "block"],
    {"ticks-2+"}, {"select"}, {"tick", "late"},
    "at least two ticks were delivered and compared with the schedule, or with what the policy was told on a clock that "
    "moves all the time",
    16_000, 300_000, moving=1,
)
