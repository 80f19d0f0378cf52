"""Standard input as the command-line tools read it."""
import sys

from mediagrains.tools import file_or_pipe

_open = []  # entered and never left, as a tool which is still running


class _Stdin:
    def __init__(self, buffer):
        self.buffer = buffer


def InputStreamWrapper(f):
    """What the tools would read f through, were it standard input."""
    keep = sys.stdin
    sys.stdin = _Stdin(f)
    try:
        c = file_or_pipe("-", "rb")
        out = c.__enter__()
    finally:
        sys.stdin = keep
    if len(_open) > 1000:
        _open.clear()
    _open.append(c)
    return out
