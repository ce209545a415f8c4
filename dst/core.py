"""
Simulation core: seeds, event log, coverage, violations, minimisation.

One episode is (trace) -> verdict. A trace is a JSON value that holds every decision of
the run: workload, schedule of steps, delays and faults. It is drawn from one seeded
PRNG, so one seed is one trace, and a trace replays without the PRNG.
"""

from __future__ import annotations

import hashlib
import json
import random
import traceback
from collections import Counter


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, detail: str, key: str = "") -> None:
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail
        self.key = key


class InvalidTrace(Exception):
    """The trace is not meaningful (only while shrinking)."""


class NoProgress(BaseException):
    """The step or CPU budget of an episode ran out."""


class Cov:
    """What one process covered, and the event log of the episode that is running."""

    def __init__(self) -> None:
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.states: set[int] = set()
        self.steps = 0
        self.sim_time = 0
        self.nontrivial: set[str] = set()
        self.evaluations = 0
        self._h = hashlib.sha256()
        self.tail: list[str] = []
        self.keep = False

    def start(self) -> None:
        self._h = hashlib.sha256()
        self.tail = []

    def log(self, *items) -> None:
        """Record one event. Draws nothing and reads no clock."""
        line = " ".join(str(i) for i in items)
        self._h.update(line.encode())
        self._h.update(b"\n")
        if self.keep:
            self.tail.append(line)

    def digest(self) -> str:
        return self._h.hexdigest()

    def fault(self, kind: str, n: int = 1) -> None:
        self.faults[kind] += n
        self.log("fault", kind, n)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] += n

    def state(self, *key) -> None:
        self.states.add(hash_key(key))

    def step(self, n: int = 1) -> None:
        self.steps += n


def hash_key(key) -> int:
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def episode_seed(verif_seed: int, pid: str, index: int) -> int:
    h = hashlib.sha256(f"{verif_seed}:{pid}:{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def generate(prop, seed: int, index: int, tier: str) -> dict:
    rng = random.Random(seed)
    trace = prop.generate(rng, index, tier)
    trace.setdefault("order_seed", rng.getrandbits(32))
    # A trace is JSON: what is executed is what can be replayed.
    return json.loads(json.dumps(trace))


def run_trace(prop, trace: dict, cov: Cov) -> Violation | None:
    """Run one trace. Returns the violation, or None. Other exceptions are the harness's."""
    from dst import boot

    boot.reset_identity_order(trace.get("order_seed", 0))
    cov.start()
    cov.evaluations += 1
    try:
        prop.execute(trace, cov)
    except Violation as v:
        return v
    except InvalidTrace:
        raise
    except Exception as e:
        # A legitimate call into the library raised: that is a finding about the library.
        # An exception that never was inside the library is the harness's own.
        if not lib_frames(e):
            raise
        return unexpected("call", e)
    return None


def lib_frames(exc: BaseException) -> list[tuple[str, str]]:
    """(file, function) of the b_asic frames an exception passed through."""
    return [
        (f.filename.split("b_asic/", 1)[-1], f.name)
        for f in traceback.extract_tb(exc.__traceback__)
        if "/b_asic/" in f.filename
    ]


def unexpected(what: str, exc: BaseException, key: str = "") -> Violation:
    """A legitimate call raised: a violation that names the exception."""
    frames = lib_frames(exc)
    where = frames[-1] if frames else ("?", "?")
    if not frames:
        raise exc
    return Violation(
        "unexpected-exception",
        f"{what}: {type(exc).__name__}: {str(exc)[:300]} (in {where[0]}:{where[1]})",
        key or f"{what}:{type(exc).__name__}:{where[1]}",
    )


# --------------------------------------------------------------------------------------
# Minimisation
# --------------------------------------------------------------------------------------
def _get(t, path):
    for p in path:
        t = t[p]
    return t


def _list_paths(t, prefix=()):
    out = []
    if isinstance(t, dict):
        for k in t:
            out += _list_paths(t[k], (*prefix, k))
    elif isinstance(t, list):
        if t and prefix:
            out.append(prefix)
        for i, x in enumerate(t):
            if isinstance(x, (dict, list)):
                out += _list_paths(x, (*prefix, i))
    return out


def minimise(prop, trace: dict, violation: Violation, cov: Cov, budget: int, deadline=None, run=None) -> tuple[dict, Violation, int]:
    """Greedy delta debugging on the trace, keeping the violation's kind."""
    import time

    best, best_v = trace, violation
    tried = 0
    stop = (time.monotonic() + deadline) if deadline else None

    def attempt(cand) -> bool:
        nonlocal best, best_v, tried
        if tried >= budget or (stop and time.monotonic() > stop):
            return False
        tried += 1
        cand = json.loads(json.dumps(cand))
        try:
            v = (run or run_trace)(prop, cand, cov)
        except (Exception, NoProgress):
            return False
        if v is not None and v.kind == violation.kind and (
            v.key == violation.key or not getattr(prop, "SHRINK_KEEP_KEY", True)
        ):
            best, best_v = cand, v
            return True
        return False

    only = getattr(prop, "SHRINK_LISTS", None)
    changed = True
    while changed and tried < budget and not (stop and time.monotonic() > stop):
        changed = False
        for path in _list_paths(best):
            if only is not None and ".".join(str(p) for p in path if not isinstance(p, int)) not in only:
                continue
            try:
                n = len(_get(best, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = n
            while size >= 1:
                i = 0
                while True:
                    try:
                        cur = _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if i >= len(cur):
                        break
                    cand = json.loads(json.dumps(best))
                    del _get(cand, path)[i : i + size]
                    if attempt(cand):
                        changed = True
                    else:
                        i += size
                size //= 2
        if hasattr(prop, "simplify"):
            again = True
            while again:
                again = False
                for cand in prop.simplify(json.loads(json.dumps(best))):
                    if attempt(cand):
                        changed = again = True
                        break
    return best, best_v, tried
