"""P04: every scheduler returns a legal schedule that respects its constraints."""

from __future__ import annotations

from dst import edits, gen, legal, machine, sched
from dst.core import InvalidTrace, NoProgress, Violation
from dst.model import FUNCS

EPISODES = {"quick": 5000, "thorough": 150000}
CPU_LIMIT = 100
RULE = (
    "one run = one random timed SFG scheduled by one scheduler under random limits on resources, memory "
    "reads and writes, period, and input and output times; the result is executed cycle by cycle "
    "and its resource use counted; distinct = distinct trace that gave a schedule under at least one limit"
)
REAL = ["b_asic.scheduler (ASAP, ALAP, list, recursive list)", "b_asic.list_schedulers",
        "b_asic.schedule.Schedule", "SFG"]
STUB = ["none"]
ASSUMPTIONS = ["delay initial values are 0", "constraints that cannot be met may be refused"]
STATE_MEASURE = "hash of (scheduler, start times, laps, period)"
LIST = ["edf", "lst", "mfo", "hybrid", "list", "list"]

# Bounded work: lookups of operations a scheduler may do. A scheduler that loops for ever
# runs into it at the same point in every run (CPU_LIMIT is only the backstop).
LOOKUPS = 200000
_left = [0]


def setup():
    from b_asic.sfg import SFG

    real = SFG.find_by_id

    def find_by_id(self, graph_id):
        _left[0] -= 1
        if _left[0] < 0:
            _left[0] = LOOKUPS
            raise NoProgress("too many lookups of operations")
        return real(self, graph_id)

    SFG.find_by_id = find_by_id


def generate(rng, index, tier):
    kind = rng.choice(["asap", "alap", "alap", *LIST, "rec", "rec", "rec"])
    feed = kind in LIST and rng.random() < 0.8
    g = sched.random_timed(rng, rng.randint(1, 6 if kind == "rec" else 9), zero=kind != "rec" and rng.random() < 0.1,
                           loop_prob=0.0 if feed else 0.6, delay_prob=0.2)
    spec = g["spec"]
    for m in g["timing"].values():
        # the period follows from the latencies: longer executions need not fit in it
        m["ex"] = min(m["ex"], max(1, max(m["lat"].values())))
    types = sorted({n["t"] for n in spec["nodes"] if n["t"] not in ("t", "sink", "dontcare")})
    c = {"cyclic": rng.random() < 0.6, "T": None, "res": None}
    if rng.random() < 0.6:
        c["T"] = rng.choice([["rel", 0], ["rel", 1], ["rel", rng.randint(-6, 4)],
                             ["abs", rng.randint(1, 12)]])
    if kind not in ("asap", "alap"):
        r = rng.random()
        if r < 0.3:
            c["res"] = {t: 100 for t in types}
        elif r < 0.85:
            c["res"] = {t: rng.randint(1, 3) for t in types if rng.random() < 0.6}
        if kind != "rec":
            if rng.random() < 0.25:
                c["reads"] = rng.randint(1, 4)
            if rng.random() < 0.25:
                c["writes"] = rng.randint(1, 4)
        if kind in ("list", "rec"):
            cols = rng.sample(range(5), rng.randint(1, 3))
            c["sort"] = [[k, rng.random() < 0.6] for k in cols]
    nin = [i for i, n in enumerate(spec["nodes"]) if n["t"] == "in"]
    nout = [i for i, n in enumerate(spec["nodes"]) if n["t"] == "out"]
    if rng.random() < 0.3:
        c["in_times"] = {str(i): rng.randint(0, 4) for i in nin if rng.random() < 0.8}
    r = rng.random()
    if r < 0.25:
        c["out_delta"] = {str(i): rng.randint(0, 4) for i in nout if rng.random() < 0.9}
    elif r < 0.35 and kind == "alap":
        c["out_times"] = {str(i): rng.randint(0, 8) for i in nout if rng.random() < 0.5}
    return {"g": g, "kind": kind, "c": c, "stim": gen.stimuli(rng, sched.n_inputs(spec), 5)}


def free(t) -> bool:
    """Nothing in the request can be impossible."""
    c = t["c"]
    return (
        c["T"] is None
        and (t["kind"] in ("asap", "alap") or min((c["res"] or {"": 0}).values(), default=0) >= 100)
        and not any(c.get(k) for k in ("reads", "writes", "out_delta", "out_times", "in_times"))
        and (t["kind"] in ("asap", "alap") or not has_loop(t["g"]["spec"]))
        and all(v > 0 for m in t["g"]["timing"].values() for k, v in m["lat"].items()
                if k[0] == "o")
    )


def has_loop(spec) -> bool:
    nodes = spec["nodes"]
    return any(n["t"] == "t" and n["a"][0][0] > i for i, n in enumerate(nodes))


def scheduler(t, gid):
    import b_asic.list_schedulers as ls
    import b_asic.scheduler as sc

    c = t["c"]
    kw = {}
    for k, name in (("in_times", "input_times"), ("out_delta", "output_delta_times"),
                    ("out_times", "output_times")):
        if c.get(k):
            kw[name] = {gid[gen.node_name(int(i))]: v for i, v in c[k].items()}
    kind = t["kind"]
    if kind in ("asap", "alap"):
        return {"asap": sc.ASAPScheduler, "alap": sc.ALAPScheduler}[kind](**kw)
    kw.pop("output_times", None)
    if c["res"] is not None:
        present = {n["t"] for n in t["g"]["spec"]["nodes"]}
        kw["max_resources"] = {k: v for k, v in c["res"].items() if k in present}
    if c.get("sort"):
        kw["sort_order"] = tuple((a, bool(b)) for a, b in c["sort"])
    if kind != "rec":
        for k in ("reads", "writes"):
            if c.get(k):
                kw[f"max_concurrent_{k}"] = c[k]
    if kind in ("list", "rec") and "sort_order" not in kw:
        raise InvalidTrace
    return {
        "edf": ls.EarliestDeadlineScheduler, "lst": ls.LeastSlackTimeScheduler,
        "mfo": ls.MaxFanOutScheduler, "hybrid": ls.HybridScheduler,
        "list": sc.ListScheduler, "rec": sc.RecursiveListScheduler,
    }[kind](**kw)


def execute(trace, cov):
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ASAPScheduler

    sched.valid_timing(trace["g"])
    for m in trace["g"]["timing"].values():
        top = max(m["lat"].values())
        if m["ex"] > max(1, top) or (top == 0 and trace["kind"] == "rec"):
            raise InvalidTrace
    spec = trace["g"]["spec"]
    c = trace["c"]
    kind = trace["kind"]
    orig = sched.orig_edges(spec)
    ins, ref = sched.reference(spec, trace["stim"], 5)
    _left[0] = 10**12
    sfg = sched.build(trace["g"])
    gid = {op.name: op.graph_id for op in sfg.operations}
    T = None
    base = Schedule(sfg, ASAPScheduler()).schedule_time
    if base == 0:
        raise InvalidTrace
    if c["T"] is not None:
        mode, k = c["T"]
        base = base if mode == "rel" else 0
        T = max(1, base + k)
    # the retiming of the recursive scheduler is bounded, but slow
    budget = LOOKUPS * (50 if kind == "rec" else 1)
    _left[0] = budget
    try:
        s = Schedule(sfg, scheduler(trace, gid), schedule_time=T, cyclic=c["cyclic"])
    except NoProgress as e:
        raise Violation("no-progress", str(e), kind) from None
    except ValueError as e:
        cov.probe(f"{kind}:refused")
        cov.log("refused", str(e)[:60])
        if free(trace):
            late = "Negative lap" in str(e) and any(
                v for m in trace["g"]["timing"].values() for k, v in m["lat"].items() if k[0] == "i"
            )
            key = f"{kind}:late-input" if late else kind
            raise Violation("possible-request-refused", f"{kind}: {e}", key) from None
        return
    used = budget - _left[0]
    _left[0] = 10**12
    cov.probe(f"lookups<2^{used.bit_length()}")
    if s.schedule_time == 0:
        return
    cov.probe(f"{kind}:ok")
    key = (kind, sorted(s.start_times.items()), sorted((k, v) for k, v in s.laps.items() if v),
           s.schedule_time)
    cov.log(*key)
    cov.state(key)
    try:
        if T is not None and s.schedule_time != T and kind != "rec":
            raise Violation("period-not-kept", f"asked {T}, got {s.schedule_time}", "T")
        p = machine.read(s)
        machine.check_times(p)
        present = {n["t"] for n in spec["nodes"]}
        limited = T is not None
        if kind not in ("asap", "alap"):
            limits = {t: 1 for t in present if t not in ("t", "sink", "dontcare")}
            limits.update({k: v for k, v in (c["res"] or {}).items() if k in present})
            legal.check_resources(p, limits)
            limited = True
            legal.check_ports(p, c.get("reads"), c.get("writes"))
        for i, v in (c.get("in_times") or {}).items():
            have = p.ops[gen.node_name(int(i))]["s"]
            if have != v:
                raise Violation("input-time-not-kept", f"n{i} at {have}, asked {v}", "in")
            cov.probe("input-times")
        if kind == "alap":
            for i, v in (c.get("out_times") or {}).items():
                have = p.ops[gen.node_name(int(i))]["s"]
                if (have - v) % p.T:
                    raise Violation("output-time-not-kept", f"n{i} at {have}, asked {v}", "out")
                cov.probe("output-times")
        r = machine.retiming(p, orig)
        machine.check_sfg(s, p)
        machine.compare(machine.execute(p, r, ins, 5, cov), ref)
        for group in components(p):
            absolute = {
                i: p.ops[gen.node_name(int(i))]["s"] + p.T * r[gen.node_name(int(i))]
                for i in (c.get("out_delta") or {})
                if gen.node_name(int(i)) in group
            }
            if not absolute:
                continue
            if len({absolute[i] - c["out_delta"][i] for i in absolute}) > 1:
                raise Violation(
                    "output-delta-not-kept", f"outputs at {absolute}, asked {c['out_delta']}",
                    "delta",
                )
            cov.probe("output-deltas")
    except Violation as v:
        loops = kind == "rec" and has_loop(spec) and v.key in ("delays", "delta")
        v.key = f"rec-loops:{v.key}" if loops else f"{kind}:{v.key}"
        raise
    if limited:
        cov.nontrivial.add(cov.digest()[:16])


def components(p) -> list[set]:
    """Operations connected through values that depend on the iteration."""
    group = {n: {n} for n in p.ops}
    for (dst, _), (src, _, _) in p.edges.items():
        if p.ops[src]["t"] not in machine.FREE and group[src] is not group[dst]:
            group[src] |= group[dst]
            for n in group[dst]:
                group[n] = group[src]
    return list({id(g): g for g in group.values()}.values())


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        k = sched.n_inputs(g["spec"])
        if len(g["spec"]["nodes"]) == len(t["g"]["spec"]["nodes"]):
            yield dict(t, g=g, stim=t["stim"][:k])
        elif not any(t["c"].get(x) for x in ("in_times", "out_delta", "out_times")):
            yield dict(t, g=g, stim=t["stim"][:k])
        else:
            nt = remap(t, g)
            if nt:
                yield nt
    for k, v in t["c"].items():
        if k == "cyclic":
            if v:
                yield dict(t, c=dict(t["c"], cyclic=False))
        elif k == "res" and v:
            for x in v:
                yield dict(t, c=dict(t["c"], res={a: b for a, b in v.items() if a != x}))
        elif k == "sort":
            if len(v) > 1:
                yield dict(t, c=dict(t["c"], sort=v[:1]))
        elif v and k != "T":
            yield dict(t, c={a: b for a, b in t["c"].items() if a != k})
        elif k == "T" and v:
            yield dict(t, c=dict(t["c"], T=None))


def remap(t, g):
    """Inputs and outputs keep their order when other nodes go."""
    old, new = t["g"]["spec"]["nodes"], g["spec"]["nodes"]
    m = {}
    for kind in ("in", "out"):
        a = [i for i, n in enumerate(old) if n["t"] == kind]
        b = [i for i, n in enumerate(new) if n["t"] == kind]
        if len(a) != len(b):
            return None
        m.update(zip(map(str, a), map(str, b)))
    c = dict(t["c"])
    for k in ("in_times", "out_delta", "out_times"):
        if c.get(k):
            c[k] = {m[i]: v for i, v in c[k].items()}
    return dict(t, g=g, c=c, stim=t["stim"][: sched.n_inputs(g["spec"])])


SHRINK_LISTS = set()
