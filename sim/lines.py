"""Line-level preemption points in daisy's own code (sys.monitoring)."""
import sys
import _thread

from . import kernel as K

TOOL = 4
_on = set()
_ready = False


def _cb(code, line):
    kk = K.CURRENT
    if kk is None or not kk.line_mode:
        return
    if kk.focus is not None:
        if kk.by_os.get(_thread.get_ident()) is not None:
            kk.line_events += 1
            kk.linger_here()
        return
    t = kk.by_os.get(_thread.get_ident())
    if t is None:
        return
    kk.line_events += 1
    kk.tick("line")


def enable(codes):
    global _ready
    m = sys.monitoring
    if not _ready:
        m.use_tool_id(TOOL, "daisy-sim")
        m.register_callback(TOOL, m.events.LINE, _cb)
        _ready = True
    for c in codes:
        if c.co_name in ("<module>", "<lambda>") or c in _on:
            continue
        m.set_local_events(TOOL, c, m.events.LINE)
        _on.add(c)


def disable():
    if not _on:
        return
    m = sys.monitoring
    for c in _on:
        m.set_local_events(TOOL, c, 0)
    _on.clear()
