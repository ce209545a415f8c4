"""Is a schedule legal, and does it keep the limits it was made under? (P04, P05)"""

from __future__ import annotations

from collections import Counter, defaultdict

from dst import machine
from dst.core import Violation


def check_legal(s, orig, ins, ref, n, cov, full=True):
    """Raises unless the schedule starts everything, reads nothing early and computes ref."""
    p = machine.read(s)
    machine.check_times(p)
    r = machine.retiming(p, orig)
    if full:
        machine.check_sfg(s, p)
        machine.compare(machine.execute(p, r, ins, n, cov), ref)
    return p, r


def usage(p, t) -> Counter:
    """Operations of type t that execute per cycle of the period."""
    use: Counter = Counter()
    for o in p.ops.values():
        if o["t"] == t:
            for k in range(max(1, o["ex"] or 0)):
                use[(o["s"] + k) % p.T] += 1
    return use


def check_resources(p, limits: dict) -> None:
    for t, n in limits.items():
        use = usage(p, t)
        worst = max(use.values(), default=0)
        if worst > n:
            at = max(use, key=lambda c: (use[c], -c))
            raise Violation(
                "too-many-resources", f"{worst} of {t} at cycle {at}, limit {n} (T={p.T})", "limit"
            )


def variables(p) -> dict:
    """(source name, port) -> (absolute write time, sorted read times), without dontcares"""
    out = defaultdict(list)
    for (dst, i), e in p.edges.items():
        src, port, _ = e
        if p.ops[src]["t"] == "dontcare" or p.ops[dst]["t"] == "sink":
            continue
        w = machine.avail(p, src, port)
        use = p.ops[dst]["s"] + p.ops[dst]["ins"][i] + p.T * machine.eff(p, e)
        out[src, port].append(use - w)
    return {
        k: (machine.avail(p, *k), sorted(v)) for k, v in out.items()
    }


def check_ports(p, reads: int | None, writes: int | None) -> None:
    """Memory accesses per cycle of the values that live longer than 0 cycles."""
    r: Counter = Counter()
    w: Counter = Counter()
    for w_at, lives in variables(p).values():
        lives = {x for x in lives if x > 0}
        if lives:
            w[w_at % p.T] += 1
        for x in {(w_at + x) % p.T for x in lives}:
            r[x] += 1
    for name, use, lim in (("reads", r, reads), ("writes", w, writes)):
        worst = max(use.values(), default=0)
        if lim and worst > lim:
            raise Violation(
                f"too-many-{name}", f"{worst} {name} in one cycle, limit {lim} (T={p.T})", "limit"
            )
