"""P08: joint resource assignment is complete and legal, even if the solver fails."""

from __future__ import annotations

from collections import Counter

import os
import random
import tempfile

from dst import edits, interrupt, sched
from dst.core import InvalidTrace, Violation
from dst.props.p06 import follow, port_name, reads_of
from dst.props.p07 import accesses, check_ports, colours, conflicts, sane
from dst.props import p09
from dst.solver import FAULTS, GOOD, FILE_FAULTS, FIND_FAULTS, InjectedInterrupt, make_file_solver, \
    make_find_solver, make_solver

EPISODES = {"quick": 4000, "thorough": 40000}
RULE = (
    "one run = one schedule (random SFG, timing and edits) and up to three joint assignments with random "
    "strategy, limits and solver; one solver object serves the whole run; "
    "distinct = distinct trace in which at least one resource was shared"
)
REAL = ["b_asic.resource_assigner", "b_asic.resources splits", "b_asic.architecture", "CBC",
        "pulp's Gurobi solution-file reader", "the file system (scratch directory)"]
STUB = ["solver outcome: a pulp.LpSolver that runs CBC and alters or replaces its answer or its solution file, "
        "interrupts included"]
ASSUMPTIONS = ["memory port limits that the strategies reject are rejected for every graph",
               "an error that reports a failure may be of any of the types ValueError, KeyError, TypeError, "
               "PulpSolverError, OSError"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of the placement of each assignment"

STRATEGIES = ["ilp_graph_color", "ilp_graph_color", "ilp_min_mux", "ilp_min_mux", "greedy_graph_color", "left_edge"]


def generate(rng, index, tier):
    while True:
        g = sched.random_timed(rng, rng.randint(2, 7), delay_prob=0.3, sink_prob=0,
                               zero=rng.random() < 0.2)
        if all(n["t"] != "sink" for n in g["spec"]["nodes"]):
            break
    g["odd"] = [[rng.randrange(len(g["spec"]["nodes"])), rng.randint(1, 2)]
                for _ in range(rng.choice([0, 0, 0, 0, 1]))]
    t = {
        "g": g,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.randint(0, 4), 0),
        "seed": rng.randrange(10**6),
        "names": rng.choice(["", "", "", "same", "pair"]),
        "acts": [],
    }
    for _ in range(rng.choice([1, 1, 2, 3])):
        how = rng.choice(STRATEGIES)
        if rng.random() < 0.02:
            how = "nonsense"
        solver = rng.choice(["sim", "sim", "file", "file", "find", "none"])
        faults = {"sim": FAULTS, "file": FILE_FAULTS, "find": FIND_FAULTS, "none": ["ok"]}[solver]
        a = {
            "how": how,
            "mux": rng.choice([None, None, 0, 1, 2, 3, 4]) if how == "ilp_min_mux" or rng.random() < 0.03 else None,
            "res": [rng.randint(0, 3) if rng.random() < 0.3 else None for _ in range(6)]
            if rng.random() < 0.4 else None,
            "mems": rng.choice([None, None, None, 1, 2, 3, 4, 5, 0]),
            "ports": rng.choice([[1, 1, 2], [1, 1, 2], [1, 1, None], [1, 1, 1], [2, 1, 3], [None, None, None]])
            if how != "left_edge" else
            rng.choice([[1, 1, 2], [1, 1, None], [1, 1, 1], [2, 1, 3], [2, 2, 2], [2, 2, 3], [None, None, None]]),
            "mtype": rng.choice(["RAM", "RAM", "RAM", "register"]),
            "solver": solver,
            "out": "ok" if rng.random() < 0.4 else rng.choice(faults),
            "frac": rng.random().__round__(2),
            "disk": rng.random() < 0.05,
        }
        if rng.random() < 0.15:
            a["line"] = rng.random().__round__(3)
        t["acts"].append(a)
    return t


def build(t, cov):
    sched.valid_timing(t["g"])
    if any(n["t"] == "sink" for n in t["g"]["spec"]["nodes"]):
        raise InvalidTrace  # get_operations leaves them out
    ses = edits.Session(dict(t, stim=[]), cov)
    s = ses.sch
    if s is None or s.schedule_time == 0:
        raise InvalidTrace
    for h in t["hist"]:
        try:
            ses.apply(h)
        except Violation:
            raise InvalidTrace from None
    return s


def execute(trace, cov):
    s = build(trace, cov)
    solvers = {
        "sim": make_solver(trace["seed"], cov),
        "file": make_file_solver(trace["seed"], cov),
        "find": make_find_solver(trace["seed"], cov),
        "none": None,
    }
    old_dir, old_tmp, old_env = os.getcwd(), tempfile.tempdir, os.environ.get("TMPDIR")
    with tempfile.TemporaryDirectory(prefix="p08-", dir=os.environ.get("DST_TMP")) as scratch:
        try:
            os.chdir(scratch)
            tempfile.tempdir = scratch
            os.environ["TMPDIR"] = scratch
            solvers["file"].tmpDir = scratch
            for i, a in enumerate(trace["acts"]):
                random.seed(trace["seed"] + i)
                one(a, s, solvers, trace, scratch, cov)
        finally:
            os.chdir(old_dir)
            tempfile.tempdir = old_tmp
            if old_env is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old_env


def one(a, s, solvers, trace, scratch, cov):
    import pulp

    from b_asic.resource_assigner import assign_processing_elements_and_memories

    before = edits.snapshot(s)
    types = sorted({op.type_name() for op in s._sfg.operations if op.type_name() != "t"})
    limits = None
    if a["res"] is not None:
        limits = {ty: a["res"][i % 6] for i, ty in enumerate(types) if a["res"][i % 6] is not None}
    solver = solvers[a["solver"]]
    if solver is not None:
        solver.outcome = a["out"]
        solver.frac = a["frac"]
    kw = {
        "strategy": a["how"], "max_mux_size": a["mux"], "resources": limits, "max_mems": a["mems"],
        "memory_read_ports": a["ports"][0], "memory_write_ports": a["ports"][1],
        "memory_total_ports": a["ports"][2], "memory_type": a["mtype"], "solver": solver,
    }
    mkdtemp = tempfile.mkdtemp
    if a["disk"] and a["solver"] == "file":
        cov.fault("temp-dir-fails")

        def no_space(*args, **kwargs):
            raise OSError(28, "No space left on device")

        tempfile.mkdtemp = no_space
    result = None
    # Names are the user's and need not be unique; the oracle tells operations apart by theirs
    names = [(op, op.name) for op in s._sfg.operations]
    for k, (op, _) in enumerate(names):
        if trace["names"]:
            op.name = "v" if trace["names"] == "same" else f"v{k // 2}"
    cov.step()
    kind = a["how"]
    try:
        if "line" in a:
            cov.fault("interrupt-at-line")
            at = int(a["line"] * a["line"] * 6000)
            result, _ = interrupt.run(lambda: assign_processing_elements_and_memories(s, **kw), at)
        else:
            result = assign_processing_elements_and_memories(s, **kw)
    except (ValueError, KeyError, TypeError, OSError, pulp.PulpSolverError, InjectedInterrupt,
            interrupt.InjectedInterrupt) as e:
        cov.log(kind, "refused", type(e).__name__, str(e)[:40])
        cov.probe(f"{kind}:refused")
        if "line" not in a and must_succeed(a, s, limits, trace):
            raise Violation("feasible-refused", f"{kind}, solver {a['solver']} {a['out']}: {e!r}", kind) from None
    finally:
        tempfile.mkdtemp = mkdtemp
        for op, name in names:
            op.name = name
    if edits.snapshot(s) != before:
        raise Violation("schedule-changed", f"by {kind}", kind)
    left = sorted(os.listdir(scratch))
    if left:
        if "line" not in a:
            raise Violation("files-left", f"by {kind}, solver {a['solver']} {a['out']}: {len(left)}", kind)
        for f in left:  # nothing promises to clean up then
            path = os.path.join(scratch, f)
            if os.path.isdir(path):
                import shutil

                shutil.rmtree(path)
            else:
                os.remove(path)
    if a["solver"] == "file" and "line" not in a and solver.keepFiles:
        raise Violation("solver-changed", "keepFiles left set", kind)
    if result is not None:
        try:
            judge(a, s, result, limits, trace, cov)
        except Violation as v:
            v.key = f"{kind}:{v.key}"
            raise


def must_succeed(a, s, limits, trace) -> bool:
    """Nothing stands in the way of an assignment."""
    if trace["g"]["odd"] or limits or a["mems"] is not None or a["mux"] is not None or a["disk"]:
        return False
    if a["how"] == "nonsense" or ("ilp" in a["how"] and a["out"] not in GOOD):
        return False
    ports = sane(a["ports"])
    if ports is None or (a["how"] != "left_edge" and (ports[:2] != (1, 1) or ports[2] not in (1, 2))):
        return False
    T = s.schedule_time
    if any(p.execution_time > T for p in s.get_operations()):
        return False
    if a["mtype"] == "register" and ports[1] > 1:
        return False  # registers are allocated for one write per cycle
    mv = s.get_memory_variables().split_on_length()[1].split_into_chains()
    for p in mv:
        w, r = accesses(p, T)
        if max(r.values()) > ports[0] or max((w + r).values()) > ports[2]:
            return False
    return True


def judge(a, s, result, limits, trace, cov):
    from b_asic.architecture import Architecture
    from b_asic.resources import ProcessCollection

    pes, mems, direct = result
    T = s.schedule_time
    key = [sorted(sorted(str(p) for p in r.collection) for r in rs) for rs in (pes, mems)]
    cov.log(a["how"], key)
    cov.state((a["how"], T, repr(key)))
    cov.probe(f"{a['how']}:assigned")
    if a["how"] == "nonsense":
        raise Violation("bad-strategy-accepted", "", "nonsense")
    if a["mux"] is not None and (a["how"] != "ilp_min_mux" or a["mux"] < 1):
        raise Violation("bad-option-accepted", f"max_mux_size {a['mux']}", "mux")
    ports = sane(a["ports"])
    if ports is None:
        raise Violation("bad-option-accepted", f"ports {a['ports']}", "ports")
    # Every operation once
    want = Counter(f"{p.operation.graph_id}@{p.start_time}+{p.execution_time}" for p in s.get_operations())
    have = Counter(f"{p.operation.graph_id}@{p.start_time}+{p.execution_time}" for r in pes for p in r.collection)
    if have != want:
        raise Violation("operations-differ", f"missing {sorted((want - have).elements())},"
                        f" extra {sorted((have - want).elements())}", "operations")
    names = Counter(r.entity_name for r in [*pes, *mems])
    if max(names.values(), default=0) > 1:
        raise Violation("name-twice", f"{names.most_common(1)}", "names")
    count: Counter = Counter()
    for r in pes:
        ty = {p.operation.type_name() for p in r.collection}
        if len(ty) != 1:
            raise Violation("mixed-element", f"{ty}", "operations")
        count[ty.pop()] += 1
        use: Counter = Counter()
        for p in r.collection:
            use.update((p.start_time + k) % T for k in range(p.execution_time))
        if use and max(use.values()) > 1:
            raise Violation("element-overlaps", f"{[str(p) for p in r.collection]} (T={T})", "operations")
    for ty, n in (limits or {}).items():
        if count[ty] > n:
            raise Violation("too-many-elements", f"{count[ty]} {ty}, at most {n}", "operations")
    if a["mems"] is not None and len(mems) > a["mems"]:
        raise Violation("too-many-memories", f"{len(mems)}, at most {a['mems']}", "memories")
    # Every variable once, directly or through memories
    here = ProcessCollection([p for m in mems for p in m.collection], T, True)
    if len(here) != sum(len(m.collection) for m in mems):
        raise Violation("variable-twice", "in two memories", "memories")
    fresh = s.get_memory_variables()
    w_direct, w_mem = (reads_of([c]) for c in fresh.split_on_length())
    got = {k: v for k, v in follow(here, T, T).items()}
    if got != w_mem:
        raise Violation("variables-differ", f"{diff(got, w_mem)}", "memories")
    if any(life for v in direct for life in v.reads.values()):
        raise Violation("direct-not-immediate", f"{direct}", "direct")
    got = reads_of([direct])
    if got != w_direct:
        raise Violation("variables-differ", f"direct: {diff(got, w_direct)}", "direct")
    for m in mems:
        if not len(m.collection):
            raise Violation("empty-memory", f"{m}", "memories")
        if m._memory_type != a["mtype"]:
            raise Violation("memory-type-differs", f"{m._memory_type}", "memories")
        if m.assignment is None:
            raise Violation("not-assigned", f"{m}", "memories")
    check_ports([m.collection for m in mems], T, ports)
    if not pes or not all(len(x.collection) for x in pes):
        raise Violation("empty-element", f"{pes}", "operations")
    # Together they are an architecture, with the routing their placement implies
    try:
        arch = Architecture(pes, mems, direct_interconnects=direct)
    except (ValueError, KeyError) as e:
        raise Violation("no-architecture", f"{e!r}", "architecture") from None
    everything = Counter(id(p) for r in [*pes, *mems] for p in r.collection)
    p09.check(arch, direct, T, everything, "architecture")
    mux = p09.routes(arch, direct)[4]
    if a["mux"] is not None:
        over = {str(k): len(x) for k, x in mux.items() if len(x) > a["mux"]}
        if over:
            raise Violation("mux-too-wide", f"{over}, at most {a['mux']}", "mux")
    if a["how"] == "ilp_graph_color" and a["out"] in ("ok", "noise") and not limits and a["mems"] is None:
        optimum(s, pes, mems, here, ports, T, cov)
    if any(len(r.collection) > 1 for r in [*pes, *mems]):
        cov.nontrivial.add(cov.digest()[:16])


def optimum(s, pes, mems, here, ports, T, cov):
    n = len(here)
    if n <= 8:
        best = colours(n, conflicts(here, T, "ports", ports)) if n else 0
        if len(mems) != best:
            raise Violation("not-optimal", f"{len(mems)} memories, {best} are enough", "optimum")
    for ty, c in sorted(s.get_operations().split_on_type_name().items()):
        if len(c) <= 8:
            best = colours(len(c), conflicts(c, T, "exec", None))
            have = sum(next(iter(r.collection)).operation.type_name() == ty for r in pes)
            if have != best:
                raise Violation("not-optimal", f"{have} {ty}, {best} are enough", "optimum")
    cov.probe("optimum")


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted({*a, *b}, key=str) if a.get(k) != b.get(k)}


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        yield dict(t, g=g)
    if t["g"]["odd"]:
        yield dict(t, g=dict(t["g"], odd=[]))
    if t["names"]:
        yield dict(t, names="")
    for i, a in enumerate(t["acts"]):
        for na in (dict(a, out="ok"), dict(a, solver="sim", out="ok"), dict(a, mux=None), dict(a, res=None),
                   dict(a, mems=None), dict(a, ports=[1, 1, None]), dict(a, mtype="RAM"), dict(a, disk=False),
                   {k: v for k, v in a.items() if k != "line"}):
            if na != a:
                yield dict(t, acts=[*t["acts"][:i], na, *t["acts"][i + 1 :]])


SHRINK_LISTS = {"acts", "hist"}
