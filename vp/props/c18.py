"""Timer: start, stop, reset."""

from ..engines.timer_props import make

PROP = make(
    ["recv", "advance", "reset", "stop", "ready", "consume", "settle", "step", "cancel", "select", "event",
     "badreset", "block"],
    ["recv", "advance", "reset", "stop"],
    {"reset-during-wait", "stop-during-wait", "reset-discards-tick", "stop-with-tick", "restarted", "reset-in-select",
     "started-by-read+&+ticks-2+", "cancelled+&+ticks-2+"},
    {"reset", "stop", "cancel", "select"}, {"tick", "late", "life", "select", "reject", "deaf"},
    "a reset or stop hit a waiting read or a pending tick, restarted the timer or came from a select loop, "
    "or the timer was started by a read, or a read was cancelled and ticks followed",
    16_000, 300_000,
)
