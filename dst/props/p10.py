"""P10: memory cell assignment never overwrites a value that is still needed."""

from __future__ import annotations

import random
from collections import Counter

from dst import sched
from dst.core import Violation, hash_key
from dst.props import p07
from dst.solver import FAULTS, GOOD, InjectedInterrupt, make_solver

EPISODES = {"quick": 15000, "thorough": 200000}
RULE = (
    "one run = one random collection of memory variables (plain, interleaver, or extracted from a random edited "
    "schedule) and up to four allocations, each executed cyclically by a memory machine; "
    "distinct = distinct trace with an allocation in which two variables share a cell or register"
)
REAL = ["b_asic.resources cell assignment and _ForwardBackwardTable", "b_asic.architecture.Memory", "CBC"]
STUB = ["the memory: cells, or a register chain with back edges, driven cycle by cycle from the allocation",
        "solver outcome: a pulp.LpSolver that runs CBC and alters or replaces its answer"]
ASSUMPTIONS = ["a cell may be written in the cycle in which its old value is read last",
               "forward-backward allocation is a heuristic that may give up with an error, unless one variable is "
               "written and one read per cycle and all live equally long"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of (variables as (start, reads), their cells or register table)"


def generate(rng, index, tier):
    kind = rng.choice(["plain", "single", "single", "single", "sched", "sched", "interleave"])
    t = {"kind": kind, "seed": rng.randrange(10**6), "cyclic": rng.random() < 0.8}
    if kind == "sched":
        from dst import edits

        t["g"] = sched.random_timed(rng, rng.randint(2, 8), delay_prob=0.3)
        t["first"] = edits.first_schedule(rng)
        t["hist"] = edits.gen_history(rng, t["g"]["spec"], rng.randint(0, 3), 0)
        t["chain"] = rng.random() < 0.5
    else:
        T = t["T"] = rng.randint(1, 12)
        if kind == "interleave":
            h, w = rng.randint(1, 4), rng.randint(1, 4)
            T = t["T"] = h * w
            order = list(range(T))
            if rng.random() < 0.5:
                order = [(i % h) * w + i // h for i in range(T)]
            else:
                rng.shuffle(order)
            # Value i comes at i and leaves at position order.index(i), as early as all can
            late = max(i - order.index(i) for i in range(T)) + rng.choice([0, 0, 1, 2])
            t["items"] = [{"s": i, "r": [order.index(i) + late - i]} for i in range(T)]
        elif kind == "plain":
            over = rng.random() < 0.1
            t["items"] = [{"s": rng.randrange(T), "r": p07.life_times(rng, T, over)}
                          for _ in range(rng.randint(1, 8))]
        else:
            # At most one write and one read in a cycle
            starts = rng.sample(range(T), rng.randint(1, T))
            slots = rng.sample(range(T), T)
            t["items"] = []
            for s in starts:
                reads = [slots.pop() for _ in range(rng.choice([1, 1, 1, 2, 3])) if slots]
                if not reads:
                    break
                t["items"].append({"s": s, "r": [
                    T if (x - s) % T == 0 and rng.random() < 0.6 else (x - s) % T for x in reads
                ]})
    t["acts"] = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        a = {"how": rng.choice([*p07.EXEC, "registers", "registers", "registers"]),
             "via": rng.choice(["split", "memory"]),
             "order": rng.choice([None, *p07.ORDERS]),
             "out": "ok" if rng.random() < 0.5 else rng.choice(FAULTS)}
        if rng.random() < 0.1:
            a["max_colors"] = rng.randint(1, 5)
        t["acts"].append(a)
    return t


def execute(trace, cov):
    import pulp

    from b_asic.architecture import Memory
    from b_asic.resources import _ForwardBackwardTable

    kind = trace["kind"]
    coll, _ = p07.build(dict(trace, kind="sched" if kind == "sched" else "plain"), cov)
    T = coll.schedule_time
    if not len(coll):
        from dst.core import InvalidTrace

        raise InvalidTrace
    before = [(id(p), repr(p)) for p in coll]
    writes: Counter = Counter(p.start_time % T for p in coll)
    reads: Counter = Counter(x % T for p in coll for x in set(p.read_times))
    single = max(writes.values()) == 1 and max(reads.values()) == 1
    too_long = any(p.execution_time > T for p in coll)
    solver = make_solver(trace["seed"], cov)
    for i, a in enumerate(trace["acts"]):
        random.seed(trace["seed"] + i)
        solver.outcome = a["out"]
        how = a["how"]
        params = {"solver": solver}
        if a.get("max_colors"):
            params["max_colors"] = a["max_colors"]
        if a["order"] and how != "registers":
            params["coloring_strategy"] = a["order"]
        try:
            if how == "registers":
                if a["via"] == "split":
                    table = _ForwardBackwardTable(coll)
                else:
                    m = Memory(coll, "register", "m")
                    m.assign()
                    table = m._forward_backward_table
            elif a["via"] == "split":
                cells = coll.split_on_execution_time(how, params)
            else:
                m = Memory(coll, "RAM", "m")
                m.assign(how, alg_params=params)
                cells = m.assignment
        except (ValueError, KeyError, pulp.PulpSolverError, InjectedInterrupt) as e:
            cov.log(how, "refused", type(e).__name__, str(e)[:40])
            cov.probe(f"{how}:refused")
            fine = too_long or isinstance(e, InjectedInterrupt)
            if how == "registers" and not (single and len({max(p.read_times) - p.start_time for p in coll}) == 1):
                fine = True  # the heuristic may give up
            if how.startswith("ilp") and (a["out"] not in GOOD or a.get("max_colors")):
                fine = True
            if not fine:
                raise Violation("feasible-refused", f"{how} ({a['out']}): {e!r}", how) from None
        else:
            cov.probe(f"{how}:allocated")
            if how == "registers":
                shared = run_registers(coll, table, T, cov)
            else:
                shared = run_cells(coll, cells, T, how, cov)
            if shared:
                cov.nontrivial.add(hash_key((cov.digest()[:16],)))
        if [(id(p), repr(p)) for p in coll] != before:
            raise Violation("collection-changed", f"by {how}", how)


def run_cells(coll, cells, T, how, cov) -> bool:
    """Execute the assignment for some periods."""
    where: dict = {}
    for i, c in enumerate(cells):
        for p in c:
            if id(p) in where:
                raise Violation("placed-twice", f"{p}", how)
            where[id(p)] = i
    lost = [str(p) for p in coll if id(p) not in where]
    if lost or len(where) != len(coll):
        raise Violation("not-placed", f"{lost}", how)
    ps = list(coll)
    periods = 3
    events: dict = {}
    for k in range(periods):
        for p in ps:
            at = p.start_time + k * T
            if p.execution_time:
                events.setdefault(at, ([], []))[1].append((p, k))
            for r in sorted(set(p.read_times)):
                if r != p.start_time:  # else past the memory
                    events.setdefault(r + k * T, ([], []))[0].append((p, k))
    mem: dict = {}
    for at in sorted(events):
        rd, wr = events[at]
        cov.step()
        for p, k in rd:
            have = mem.get(where[id(p)])
            if have != (id(p), k):
                raise Violation("value-lost", f"{p} of period {k} is gone from cell {where[id(p)]} at {at} (T={T}):"
                                f" {describe(cells)}", how)
        taken = set()
        for p, k in wr:
            if where[id(p)] in taken:
                raise Violation("written-twice", f"cell {where[id(p)]} at {at}", how)
            taken.add(where[id(p)])
            mem[where[id(p)]] = (id(p), k)
    key = describe(cells)
    cov.log(how, key)
    cov.state((T, repr(key)))
    return len(cells) < len(ps)


def describe(cells):
    return sorted(sorted((p.start_time, *sorted(set(p.read_times))) for p in c) for c in cells)


def run_registers(coll, table, T, cov) -> bool:
    how = "registers"
    rows = list(table)
    n = len(rows[0].regs)
    if len(rows) != T or any(len(r.regs) != n for r in rows):
        raise Violation("table-shape", f"{len(rows)} rows, T={T}", how)
    ps = list(coll)
    inputs: dict = {}
    due: dict = {}
    for p in ps:
        inputs.setdefault(p.start_time % T, []).append(p)
        for r in sorted(set(p.read_times)):
            due.setdefault(r % T, []).append((p, r - p.start_time))
    for t, row in enumerate(rows):
        want = Counter(id(p) for p, _ in due.get(t, []))
        if Counter(id(p) for p in row.outputs) != Counter(set(want)):
            raise Violation("outputs-differ", f"at {t}: {[str(p) for p in row.outputs]},"
                            f" due {[str(p) for p, _ in due.get(t, [])]}", how)
    regs: list = [None] * n
    for c in range(5 * T):
        t = c % T
        row = rows[t]
        cov.step()
        arrived = [(id(p), c // T) for p in inputs.get(t, [])]
        stored = [(id(p), c // T) for p in inputs.get(t, []) if p.execution_time]
        if c >= 3 * T:
            for p, life in due.get(t, []):
                want = (id(p), (c - p.start_time - life) // T)
                if len(due[t]) == 1:
                    src = row.outputs_from
                    got = None
                    if src == -1:
                        got = want if want in arrived else None
                    elif src is not None and 0 <= src < n:
                        got = regs[src]
                    if got != want:
                        raise Violation("wrong-value-read", f"{p} at {t} from R{src} (T={T}): {table_text(coll)}", how)
                elif want not in regs and want not in arrived:
                    raise Violation("value-lost", f"{p} at {t} (T={T}): {table_text(coll)}", how)
        nxt = [stored[0] if len(stored) == 1 else None, *regs[:-1]] if n else []
        for frm, to in row.back_edge_to.items():
            nxt[to] = regs[frm]
        regs = nxt
    key = [[[None if x is None else (x.start_time, *sorted(set(x.read_times))) for x in r.regs],
            sorted(r.back_edge_to.items()), r.outputs_from] for r in rows]
    cov.log(how, key)
    cov.state((T, repr(key)))
    cov.probe("back-edge", sum(len(r.back_edge_to) for r in rows))
    return n < len(ps)


def table_text(coll):
    return sorted((p.start_time, *sorted(set(p.read_times))) for p in coll)


def simplify(t):
    yield from p07.simplify(t)


SHRINK_LISTS = {"acts", "items", "hist"}
