"""P07: splitting a process collection loses nothing and creates no conflict."""

from __future__ import annotations

import random
from collections import Counter

from dst import edits, gen, sched
from dst.core import InvalidTrace, Violation
from dst.solver import FAULTS, GOOD, InjectedInterrupt, make_solver

EPISODES = {"quick": 12000, "thorough": 120000}
RULE = (
    "one run = one random process collection (plain variables, processes, or extracted from a random "
    "scheduled SFG) and a list of splits with random strategy, limits, order and solver outcome; "
    "distinct = distinct trace with a split into at least 2 parts"
)
REAL = ["b_asic.resources.ProcessCollection splits and exclusion graphs", "networkx colouring", "CBC"]
STUB = ["solver outcome: a pulp.LpSolver that runs CBC and alters or replaces its answer"]
ASSUMPTIONS = ["a solver that reports success returns a feasible point up to 1e-6"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of (limits, parts as (start, reads) lists)"

EXEC = ["left_edge", "left_edge", "greedy_graph_color", "greedy_graph_color", "ilp_graph_color"]
PORTS = ["left_edge", "left_edge", "greedy_graph_color", "equitable_graph_color", "ilp_graph_color",
         "sequence", "sequence"]
PE_PORTS = ["ilp_min_input_mux", "ilp_min_output_mux", "ilp_min_mux", "left_edge_min_pe_to_mem",
            "left_edge_min_pe_to_mem", "left_edge_min_mem_to_pe", "left_edge_min_mem_to_pe"]
ORDERS = ["largest_first", "random_sequential", "smallest_last", "independent_set",
          "connected_sequential_bfs", "connected_sequential_dfs", "saturation_largest_first"]


def generate(rng, index, tier):
    kind = rng.choice(["plain", "plain", "procs", "sched"])
    t = {"kind": kind, "seed": rng.randrange(10**6), "cyclic": rng.random() < 0.5}
    if kind == "sched":
        t["g"] = sched.random_timed(rng, rng.randint(2, 7), delay_prob=0.3)
        t["first"] = edits.first_schedule(rng)
        t["hist"] = edits.gen_history(rng, t["g"]["spec"], rng.randint(0, 3), 0)
        t["chain"] = rng.random() < 0.5
    else:
        T = t["T"] = rng.randint(1, 10)
        n = rng.randint(1, 8)
        over = rng.random() < 0.15
        if kind == "plain":
            t["items"] = [
                {"s": rng.randrange(T), "r": life_times(rng, T, over)} for _ in range(n)
            ]
        else:
            t["items"] = [
                {"s": rng.randint(0, T), "e": rng.randint(0, T + (1 if over else 0)),
                 "n": rng.choice(["p", "p", None])}
                for _ in range(n)
            ]
    t["acts"] = [gen_act(rng, kind) for _ in range(rng.randint(1, 4))]
    return t


def life_times(rng, T, over):
    """Of one variable: no two reads in the same cycle of the period."""
    if over:
        return [rng.randint(0, 2 * T)]
    low = rng.choice([0, 1, 1])
    return [rng.randrange(low, T + low) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def gen_act(rng, kind):
    what = "exec" if kind == "procs" else rng.choice(["exec", "ports", "ports"])
    a = {"what": what, "out": "ok" if rng.random() < 0.5 else rng.choice(FAULTS)}
    if what == "exec":
        a["how"] = rng.choice(EXEC)
        a["order"] = rng.choice([None, *ORDERS])
    else:
        a["how"] = rng.choice(PORTS + (PE_PORTS * 2 if kind == "sched" else []))
        a["ports"] = rng.choice([(1, 1, 2), (1, 1, 1), (1, 1, None), (2, 1, None), (1, 2, None),
                                 (2, 2, 3), (1, 2, 2), (2, 1, 2), (None, None, 2), (3, 1, None),
                                 (None, 1, 2), (0, 1, None)])
        if "graph" in a["how"] or "ilp" in a["how"]:
            a["ports"] = rng.choice([(1, 1, 2), (1, 1, 1), (1, 1, None), (1, 1, None)])
    if rng.random() < 0.2:
        a["max_colors"] = rng.randint(1, 4)
    return a


def build(t, cov):
    """(collection, operations or None)"""
    from b_asic.process import PlainMemoryVariable, Process
    from b_asic.resources import ProcessCollection

    if t["kind"] == "sched":
        sched.valid_timing(t["g"])
        ses = edits.Session(t, cov)
        s = ses.sch
        if s is None or s.schedule_time == 0:
            raise InvalidTrace
        for h in t["hist"]:
            try:
                ses.apply(h)
            except Violation:
                raise InvalidTrace from None
        mv = s.get_memory_variables().split_on_length()[1]
        if t["chain"]:
            mv = mv.split_into_chains()
        return mv, s.get_operations()
    items = []
    for i, x in enumerate(t["items"]):
        if t["kind"] == "plain":
            if not x["r"] or min(x["r"]) < 0 or not 0 <= x["s"] < t["T"]:
                raise InvalidTrace
            items.append(PlainMemoryVariable(x["s"], i, dict(enumerate(x["r"])), f"v{i}"))
        else:
            items.append(Process(x["s"], x["e"], x.get("n") or f"p{i}"))
    return ProcessCollection(items, t["T"], t["cyclic"]), None


def busy(p, T) -> Counter:
    return Counter((p.start_time + k) % T for k in range(p.execution_time))


def accesses(p, T):
    return Counter([p.start_time % T]), Counter(x % T for x in set(p.read_times))


def check_partition(coll, parts, cyclic_kept=True):
    have = Counter(id(p) for c in parts for p in c)
    want = Counter(id(p) for p in coll)
    if have != want:
        lost = [str(p) for p in coll if not have[id(p)]]
        raise Violation("not-a-partition", f"lost {lost}, {sum(have.values())} of {len(coll)}", "parts")
    for c in parts:
        if c.schedule_time != coll.schedule_time:
            raise Violation("period-differs", f"{c.schedule_time}", "parts")
        if not len(c):
            raise Violation("empty-part", f"{len(parts)} parts", "parts")


def check_exec(parts, T):
    for c in parts:
        use: Counter = Counter()
        for p in c:
            use.update(busy(p, T))
        if use and max(use.values()) > 1:
            at = max(use, key=use.get)
            raise Violation("overlap", f"{[str(p) for p in c]} at cycle {at} (T={T})", "exec")


def check_ports(parts, T, limits):
    for c in parts:
        bad = excess(c, T, limits)
        if bad:
            # All of it may be due to reads at or after T, seen by the accesses modulo T only
            key = "ports" if excess(c, T, limits, wrap=False) else "ports-wrapped-total"
            raise Violation("too-many-accesses", f"{[(str(p), p.start_time, *sorted(p.read_times)) for p in c]}: {bad},"
                            f" limits {limits} (T={T})", key)


def possible(p, T, limits) -> bool:
    """Is the variable alone within the limits?"""
    w, r = accesses(p, T)
    return all(max(use.values()) <= lim for use, lim in zip((r, w, w + r), limits))


def excess(c, T, limits, wrap=True) -> str:
    """More accesses in a cycle than the limits allow, if any."""
    w: Counter = Counter()
    r: Counter = Counter()
    t: Counter = Counter()
    for p in c:
        pw, pr = accesses(p, T)
        if not possible(p, T, limits):
            continue
        w.update(pw)
        r.update(pr)
        t.update(pw + (pr if wrap else Counter(x for x in set(p.read_times) if x < T)))
    for name, use, lim in (("reads", r, limits[0]), ("writes", w, limits[1]), ("total", t, limits[2])):
        for at, k in sorted(use.items()):
            if k > lim:
                return f"{k} {name} at {at}"
    return ""


def colours(n, conflict) -> int:
    """Chromatic number by exhaustive search (n is small)."""
    best = n
    colour: list = []

    def place(k):
        nonlocal best
        used = max(colour, default=-1) + 1
        if used >= best:
            return
        if k == n:
            best = used
            return
        for c in range(min(used + 1, best)):
            if all(colour[j] != c or (j, k) not in conflict for j in range(k)):
                colour.append(c)
                place(k + 1)
                colour.pop()

    place(0)
    return best


def conflicts(coll, T, what, limits) -> set:
    ps = list(coll)
    out = set()
    for i in range(len(ps)):
        for j in range(i + 1, len(ps)):
            if what == "exec":
                if busy(ps[i], T) & busy(ps[j], T):
                    out.add((i, j))
            elif excess((ps[i], ps[j]), T, limits):
                out.add((i, j))
    return out


def sane(limits):
    r, w, t = limits
    if t is None:
        if r is None or w is None:
            return None
        t = r + w
    r = t if r is None else r
    w = t if w is None else w
    return (r, w, t) if t >= r and t >= w else None


def execute(trace, cov):
    import pulp

    from b_asic.architecture import ProcessingElement

    coll, ops = build(trace, cov)
    T = coll.schedule_time
    before = [(id(p), repr(p)) for p in coll]
    if not before:
        raise InvalidTrace
    pes = None
    if ops is not None:
        pes = []
        for _, c in sorted(ops.split_on_type_name().items()):
            if any(p.execution_time > T for p in c):
                raise InvalidTrace
            for k, part in enumerate(c.split_on_execution_time()):
                try:
                    pes.append(ProcessingElement(part, f"pe{len(pes)}_{k}"))
                except ValueError as e:
                    raise Violation("part-not-mappable", f"{e}", "pe") from None
    solver = make_solver(trace["seed"], cov)
    for i, a in enumerate(trace["acts"]):
        random.seed(trace["seed"] + i)
        solver.outcome = a["out"]
        params = {"solver": solver, "processing_elements": pes}
        if a.get("max_colors"):
            params["max_colors"] = a["max_colors"]
        ilp = a["how"].startswith("ilp")
        what, how = a["what"], a["how"]
        kind = f"{what}-{how}"
        limits = None
        if what == "ports":
            limits = sane(a["ports"])
        try:
            if what == "exec":
                if a["order"]:
                    params["coloring_strategy"] = a["order"]
                parts = coll.split_on_execution_time(how, params)
            elif how == "sequence":
                order = sorted(coll, key=lambda p: (trace["seed"] * 31 + before.index((id(p), repr(p))) * 7919) % 101)
                if limits is None:
                    continue
                parts = coll.split_ports_sequentially(*limits, sequence=order)
            else:
                parts = coll.split_on_ports(how, *a["ports"], params)
        except NotImplementedError:
            continue
        except (ValueError, KeyError, pulp.PulpSolverError, InjectedInterrupt) as e:
            cov.log(kind, "refused", type(e).__name__, str(e)[:40])
            cov.probe(f"{kind}:refused")
            if refusal_is_wrong(coll, T, a, limits, e):
                raise Violation("feasible-refused", f"{kind} ({a['out']}): {e!r}", kind) from None
        else:
            if ilp and a["out"] in ("raise", "interrupt"):
                raise Violation("failure-swallowed", f"{kind} {a['out']}", kind)
            if what == "ports" and limits is None:
                raise Violation("bad-limits-accepted", f"{a['ports']}", kind)
            cov.probe(f"{kind}:split")
            judge(coll, T, a, parts, limits, kind, solver, cov)
            if len(parts) > 1:
                cov.nontrivial.add(cov.digest()[:16])
        if [(id(p), repr(p)) for p in coll] != before:
            raise Violation("collection-changed", f"by {kind}", kind)


def refusal_is_wrong(coll, T, a, limits, e) -> bool:
    """The call raised: did it have a reason to?"""
    how = a["how"]
    if how.startswith("ilp") and (a["out"] not in GOOD or a.get("max_colors")):
        return False
    if isinstance(e, InjectedInterrupt):
        return False
    if a["what"] == "exec":
        return all(p.execution_time <= T for p in coll)
    if limits is None:
        return False
    if "mux" in how and "Destination" in str(e) and any(only_sinks(p) for p in coll):
        return False
    return limits[2] > 1 or not any(w & r for w, r in (accesses(p, T) for p in coll))


def only_sinks(var) -> bool:
    """No operation with a processing element reads the variable."""
    signals = var.root_write_port.signals
    return all(type(s.destination.operation).__name__ == "Sink" for s in signals)


def judge(coll, T, a, parts, limits, kind, solver, cov):
    key = sorted(sorted((p.start_time, *sorted(p.read_times)) for p in c) for c in parts)
    cov.log(kind, key)
    cov.state((kind, T, limits, repr(key)))
    try:
        check_partition(coll, parts)
        if a["what"] == "exec":
            check_exec(parts, T)
        else:
            check_ports(parts, T, limits)
        n = len(list(coll))
        fits = a["what"] == "exec" or all(possible(p, T, limits) for p in coll)
        if a["how"] == "ilp_graph_color" and a["out"] in ("ok", "noise") and n <= 8 and fits:
            best = colours(n, conflicts(coll, T, a["what"], limits))
            if len(parts) != best:
                raise Violation("not-optimal", f"{len(parts)} parts, {best} are enough", "optimum")
            cov.probe("optimum")
    except Violation as v:
        v.key = f"{kind}:{v.key}"
        raise


def simplify(t):
    if t["kind"] == "sched":
        for g in sched.simplify_graph(t["g"]):
            yield dict(t, g=g)
    for i, a in enumerate(t["acts"]):
        for na in (dict(a, out="ok"), {k: v for k, v in a.items() if k != "max_colors"}):
            if na != a:
                yield dict(t, acts=[*t["acts"][:i], na, *t["acts"][i + 1 :]])
    for i, x in enumerate(t.get("items", [])):
        for k in ("s", "e"):
            if x.get(k):
                yield dict(t, items=[*t["items"][:i], dict(x, **{k: x[k] - 1}), *t["items"][i + 1 :]])
        if len(x.get("r", [])) > 1:
            yield dict(t, items=[*t["items"][:i], dict(x, r=x["r"][1:]), *t["items"][i + 1 :]])
    if t.get("T", 0) > 1 and all(x["s"] < t["T"] - 1 for x in t["items"]):
        yield dict(t, T=t["T"] - 1)


SHRINK_LISTS = {"acts", "items", "hist"}
