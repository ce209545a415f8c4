"""Seam: an interrupt (Ctrl-C, a signal) that arrives at a chosen line inside the library."""

from __future__ import annotations

import os
import sys

from dst import boot


class InjectedInterrupt(KeyboardInterrupt):
    """A user interrupt the simulator injected."""


def run(f, at=None):
    """
    Call f. Count the lines the library executes; raise at line number *at*.

    Returns (result, lines executed). The lines counted are those of the package itself.
    """
    root = os.path.join(os.path.abspath(boot.REPO_LIB), "b_asic") + os.sep
    known: dict[str, bool] = {}
    n = 0

    def local(frame, event, arg):
        nonlocal n
        if event == "line":
            n += 1
            if at is not None and n > at:
                sys.settrace(None)
                raise InjectedInterrupt("injected")
        return local

    def tracer(frame, event, arg):
        name = frame.f_code.co_filename
        ours = known.get(name)
        if ours is None:
            ours = known[name] = os.path.abspath(name).startswith(root)
        return local if ours else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = f()
    finally:
        sys.settrace(old)
    return r, n
