"""
Bootstrap of a simulation process.

Puts the working tree of /repo on the import path, supplies the two build-generated
modules when they are missing, and installs the seams that are global to a process
(identity-hash order, wall clock, uuid, temp names).
"""

import os
import sys
import types
import warnings

REPO_LIB = os.environ.get("DST_REPO_LIB", "/repo/lib")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_booted = False


def boot() -> None:
    global _booted
    if _booted:
        return
    _booted = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    os.environ.setdefault("QT_API", "pyqt6")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(5000)
    if REPO_LIB not in sys.path:
        sys.path.insert(0, REPO_LIB)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    # The two modules the build generates are git-ignored. A check must not depend on
    # whether a build left them behind, so they are supplied here when absent.
    pkg = os.path.join(REPO_LIB, "b_asic")
    if not os.path.exists(os.path.join(pkg, "_version.py")):
        m = types.ModuleType("b_asic._version")
        m.__version__ = "1.0.0"
        sys.modules["b_asic._version"] = m
    if not any(
        f.startswith("_b_asic.") for f in os.listdir(pkg)
    ):
        m = types.ModuleType("b_asic._b_asic")

        class FastSimulation:  # placeholder, like the one build.sh writes
            def __init__(self, *args, **kwargs):
                raise RuntimeError("C++ extension not built")

        m.FastSimulation = FastSimulation
        m.__all__ = ["FastSimulation"]
        sys.modules["b_asic._b_asic"] = m
    import b_asic

    if not os.path.abspath(b_asic.__file__).startswith(os.path.abspath(REPO_LIB)):
        raise RuntimeError(f"b_asic imported from {b_asic.__file__}")
    install_identity_order_seam()


# --------------------------------------------------------------------------------------
# Seam: identity-hash order.
#
# Operations, ports, signals, processes and resources hash by object address, so the
# iteration order of every set and dict-of-sets of them is decided by the memory
# allocator. Here their hash comes from a seeded generator instead: one seed is one
# iteration order, and different seeds explore different orders.
# --------------------------------------------------------------------------------------
_order_state = [0x9E3779B97F4A7C15]


def set_identity_order(seed: int) -> None:
    _order_state[0] = (seed * 0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03) & (2**64 - 1)


def _next_order() -> int:
    z = _order_state[0] = (_order_state[0] + 0x9E3779B97F4A7C15) & (2**64 - 1)
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1)
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
    return (z ^ (z >> 31)) >> 3


def install_identity_order_seam() -> None:
    from b_asic.architecture import Architecture, Resource
    from b_asic.graph_component import AbstractGraphComponent
    from b_asic.port import AbstractPort
    from b_asic.process import Process
    from b_asic.resources import ProcessCollection

    table: dict[int, tuple[object, int]] = {}

    def _hash(self):
        # Keyed by address while the object is alive: the entry keeps the object alive
        # for the length of the episode, so an address is never reused inside one.
        entry = table.get(id(self))
        if entry is None:
            entry = (self, _next_order())
            table[id(self)] = entry
        return entry[1]

    for cls in (
        AbstractGraphComponent,
        AbstractPort,
        Process,
        Resource,
        ProcessCollection,
        Architecture,
    ):
        if cls.__hash__ is object.__hash__:
            cls.__hash__ = _hash
    global _order_table
    _order_table = table


_order_table: dict = {}


def reset_identity_order(seed: int) -> None:
    """Start an episode: forget the objects of the previous one, reseed the order."""
    _order_table.clear()
    set_identity_order(seed)
