"""Which functions of the repository an execution entered (reported in the evidence)."""
import contextlib
import sys

_MON = sys.monitoring
_TOOL = 4
_active = []


def _start(code, _offset):
    if code.co_filename.startswith("/repo/mimosa"):
        name = code.co_filename[len("/repo/"):] + ":" + code.co_qualname
        for out in _active:
            out.add(name)
    return _MON.DISABLE


@contextlib.contextmanager
def traced(out):
    """Collect 'module:function' of every /repo function called inside."""
    if not _active:
        _MON.use_tool_id(_TOOL, "vf")
        _MON.register_callback(_TOOL, _MON.events.PY_START, _start)
        _MON.set_events(_TOOL, _MON.events.PY_START)
    _active.append(out)
    _MON.restart_events()
    try:
        yield
    finally:
        # (by identity: two of the sets may be equal)
        for i in reversed(range(len(_active))):
            if _active[i] is out:
                del _active[i]
                break
        if not _active:
            _MON.set_events(_TOOL, 0)
            _MON.free_tool_id(_TOOL)
