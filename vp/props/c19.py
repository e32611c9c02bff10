"""FileWatcher: content."""

from ..engines.watch_props import make

PROP = make(
    ["change", "recv", "settle", "change", "step", "ready", "consume", "select", "recv", "timeout"],
    ["change", "recv", "settle"],
    {"delivered-3+", "batch-2+", "filtered+&+waiting"},
    {"content", "late", "paths"},
    "at least three changes were delivered, or a batch of several selected changes was handed out, or changes of other "
    "types were filtered out while a read was waiting",
    16_000, 250_000,
)
