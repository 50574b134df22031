"""Interrupts between any two source lines of the code under test.

The interpreter's trace function is the seam: every executed line of the chosen files is counted, and at the planned
count a KeyboardInterrupt (a user's Ctrl-C) is raised there."""
import os
import sys

from . import core


class Lines(object):
    def __init__(self, at=None, part='pyverilog', skip=()):
        self.at, self.n, self.where = at, 0, None
        self.prefix = os.path.join(core.REPO, part)
        self.skip = tuple(skip)
        self.known = {}

    def _mine(self, code):
        k = self.known.get(code)
        if k is None:
            f = code.co_filename
            k = f.startswith(self.prefix) and not f.endswith(self.skip) if self.skip else f.startswith(self.prefix)
            self.known[code] = k
        return k

    def _global(self, frame, event, arg):
        return self._local if self._mine(frame.f_code) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.at:
                self.where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                sys.settrace(None)
                raise KeyboardInterrupt()
        return self._local

    def __enter__(self):
        if self.at is not None and self.at > 0 or self.at == -1:     # -1: only count
            sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False
