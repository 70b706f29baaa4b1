"""Faults injected into calls: an interruption at the n-th executed line of the package, or a failure of the n-th use of a random generator."""
import os
import sys

import numpy as np
import pyrichlet

ROOT = os.path.dirname(os.path.abspath(pyrichlet.__file__)) + os.sep
MON = sys.monitoring
TOOL = 4


class Stop(KeyboardInterrupt):
    """The user interrupts."""


class Broken(OSError):
    """The source of randomness fails."""


def _run(f, events, callback, exc):
    MON.use_tool_id(TOOL, "faults")
    try:
        MON.register_callback(TOOL, events, callback)
        MON.set_events(TOOL, events)
        MON.restart_events()
        try:
            f()
            return False
        except exc:
            return True
        finally:
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, events, None)
    finally:
        MON.free_tool_id(TOOL)


def at_line(f, n=None):
    """Run f, interrupting before the n-th line of the package it executes.  Returns (number of lines executed, interrupted)."""
    count = 0

    def line(code, number):
        nonlocal count
        if not code.co_filename.startswith(ROOT):
            return MON.DISABLE
        count += 1
        if count == n:
            raise Stop

    broke = _run(f, MON.events.LINE, line, Stop)
    return count, broke


def at_use(f, n=None):
    """Run f with the n-th use of a random generator failing.  Returns (number of uses, failed)."""
    count = 0

    def call(code, offset, callable_, arg0):
        nonlocal count
        if isinstance(arg0, np.random.Generator) or isinstance(getattr(callable_, "__self__", None), np.random.Generator):
            if callable_ in (isinstance, type, id, getattr, hasattr):
                return
            count += 1
            if count == n:
                raise Broken("no randomness")

    broke = _run(f, MON.events.CALL, call, Broken)
    return count, broke
