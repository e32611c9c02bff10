"""FileWatcher: cancelled waits and the end."""

from ..engines.watch_props import make

PROP = make(
    ["change", "recv", "settle", "change", "step", "ready", "consume", "select", "cancel", "other", "advance", "end",
     "cancel", "timeout"],
    ["change", "recv", "cancel", "end"],
    {"delivered-after-cancel", "delivered-after-end", "ended-while-waiting"},
    {"content", "late", "end", "leak", "deaf"},
    "changes were delivered after a read was cancelled or after the watch ended, or it ended while a read was waiting",
    16_000, 250_000,
)
