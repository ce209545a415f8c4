"""P05: ILP scheduling under a simulated solver that fails in the ways solvers do."""

from __future__ import annotations

import random

from dst import gen, machine, sched
from dst.core import InvalidTrace, Violation

class InjectedInterrupt(KeyboardInterrupt):
    """The user interrupts the solver."""


EPISODES = {"quick": 3000, "thorough": 40000}
CPU_LIMIT = 60
RULE = (
    "one run = one random timed SFG scheduled by the ILP scheduler, retried through a sequence of solver "
    "outcomes (optimal, rounding noise, suboptimal, infeasible, unbounded, undefined, not solved, partly "
    "solved, raising, interrupted); distinct = distinct trace with a returned schedule"
)
REAL = ["b_asic.scheduler.ILPScheduler", "ASAPScheduler and ALAPScheduler (bounds)", "Schedule", "SFG",
        "pulp model", "CBC (outcomes ok, noise, suboptimal)"]
STUB = ["solver outcome: a pulp.LpSolver that runs CBC and alters or replaces its answer"]
ASSUMPTIONS = ["delay initial values are 0", "a solver that reports success returns a feasible point "
               "up to 1e-6"]
STATE_MEASURE = "hash of (solver outcome, start times, laps)"
FAULTS = ["noise", "subopt", "incumbent", "infeasible", "unbounded", "undefined", "notsolved", "partial", "raise",
          "interrupt"]
TYPES = ["add", "add", "sub", "addsub", "cmul", "cmul", "neg", "sym2p", "r2bfly", "mul", "mads"]


def generate(rng, index, tier):
    g = sched.random_timed(rng, rng.randint(1, 6), types=TYPES, delay_prob=0.25, loop_prob=0.4)
    for m in g["timing"].values():
        m["ex"] = min(m["ex"], max(1, max(m["lat"].values())))
    c = {"T": rng.choice([0, 0, 1, 1, 2, 3, -1, -2]), "cyclic": rng.random() < 0.4, "max": None}
    if c["T"] < 0 or (c["cyclic"] and rng.random() < 0.4):
        c["cyclic"] = True
        c["max"] = rng.randint(0, 3)
    if rng.random() < 0.2:
        nin = [i for i, n in enumerate(g["spec"]["nodes"]) if n["t"] == "in"]
        c["in_times"] = {str(rng.choice(nin)): rng.randint(0, 2)}
    seq = [rng.choice(FAULTS) for _ in range(rng.randint(0, 2))]
    return {"g": g, "c": c, "seq": [*seq, "ok"], "seed": rng.randrange(10**6),
            "stim": gen.stimuli(rng, sched.n_inputs(g["spec"]), 4)}


def make_solver(trace, cov):
    import pulp

    class SimSolver(pulp.LpSolver):
        """Runs CBC and then does to the answer what the trace says."""

        name = "SIM"
        used = None

        def available(self):
            return True

        def actualSolve(self, lp):
            rng = random.Random(trace["seed"])
            kind = self.outcome
            self.used = None
            cov.step()
            if kind != "ok":
                cov.fault(f"solver-{kind}")
            if kind == "raise":
                raise pulp.PulpSolverError("injected")
            if kind == "interrupt":
                raise InjectedInterrupt
            blank = {v.name: None for v in lp.variables()}
            if kind in ("infeasible", "unbounded", "undefined", "notsolved"):
                lp.assignVarsVals(blank)
                status = {"infeasible": -1, "unbounded": -2, "undefined": -3, "notsolved": 0}[kind]
                lp.assignStatus(status)
                return status
            objective = lp.objective
            if kind in ("subopt", "incumbent"):
                lp.setObjective(pulp.lpSum(
                    rng.randint(-2, 2) * v for v in lp.variables() if v.name.startswith("X")
                ) + pulp.lpSum(v for v in lp.variables() if v.name.startswith("R")))
            status = pulp.PULP_CBC_CMD(msg=False).actualSolve(lp)
            if kind in ("subopt", "incumbent"):
                lp.setObjective(objective)
            if status == 1:
                self.used = {v.name: v.varValue for v in lp.variables() if v.name.startswith("R")}
            if kind == "noise":
                for v in lp.variables():
                    if v.varValue is not None and rng.random() < 0.5:
                        v.varValue += rng.uniform(-1, 1) * 1e-7
            if kind == "incumbent" and status == 1:
                lp.assignStatus(0)
                return 0
            if kind == "partial":
                for v in lp.variables():
                    if rng.random() < 0.5:
                        v.varValue = None
                lp.assignStatus(0)
                return 0
            return status

    return SimSolver()


def attempt(sfg, scheduler, T, cyclic):
    from b_asic.schedule import Schedule

    return Schedule(sfg, scheduler, schedule_time=T, cyclic=cyclic)


def execute(trace, cov):
    import pulp

    from b_asic.schedule import Schedule
    from b_asic.scheduler import ASAPScheduler, ILPScheduler

    sched.valid_timing(trace["g"])
    for m in trace["g"]["timing"].values():
        if m["ex"] > max(1, max(m["lat"].values())):
            raise InvalidTrace
    spec, c = trace["g"]["spec"], trace["c"]
    orig = sched.orig_edges(spec)
    ins, ref = sched.reference(spec, trace["stim"], 4)
    sfg = sched.build(trace["g"])
    before = graph(sfg)
    gid = {op.name: op.graph_id for op in sfg.operations}
    in_times = {gid[gen.node_name(int(i))]: v for i, v in (c.get("in_times") or {}).items()}
    asap = Schedule(sfg, ASAPScheduler(input_times=in_times or None))
    if asap.schedule_time == 0:
        raise InvalidTrace
    T = max(1, asap.schedule_time + c["T"])
    solver = make_solver(trace, cov)

    def scheduler():
        kw = {"max_time": T + c["max"]} if c["max"] is not None else {}
        return ILPScheduler(solver=solver, input_times=in_times or None, **kw)

    ilp = scheduler()
    for k, kind in enumerate(trace["seq"]):
        solver.outcome = kind
        try:
            s = attempt(sfg, ilp, T, c["cyclic"])
        except (ValueError, pulp.PulpSolverError, InjectedInterrupt) as e:
            cov.log(kind, "refused", type(e).__name__, str(e)[:50])
            cov.probe(f"{kind}:refused")
            if graph(sfg) != before:
                raise Violation("graph-changed", f"after {kind}", kind) from None
            if kind == "interrupt" or not isinstance(e, ValueError):
                continue
            if kind == "ok" and k and returned(sfg, scheduler(), T, c["cyclic"]):
                raise Violation("retry-refused", f"after {trace['seq'][:k]}: {e}", "retry") from None
            if (
                kind in ("ok", "noise", "subopt", "incumbent") and not in_times
                and c["max"] is None and asap_fits(sfg, T, c["cyclic"])
            ):
                raise Violation("feasible-refused", f"T={T}, ASAP needs {asap.schedule_time}: {e}",
                                f"{kind}:refused") from None
            continue
        if kind in ("raise", "interrupt"):
            raise Violation("failure-swallowed", f"solver outcome {kind} gave a schedule", kind)
        cov.probe(f"{kind}:schedule")
        key = (sorted(s.start_times.items()), sorted((i, v) for i, v in s.laps.items() if v))
        cov.log(kind, *key)
        cov.state((kind, *key))
        try:
            check(s, sfg, T, c, gid, orig, ins, ref, solver, kind, asap, cov)
        except Violation as v:
            v.key = f"{kind}:{v.key}"
            raise
        cov.nontrivial.add(cov.digest()[:16])


def windows(sfg, T, cyclic) -> list:
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler

    try:
        return [Schedule(sfg, m(), schedule_time=T, cyclic=cyclic)
                for m in (ASAPScheduler, ALAPScheduler)]
    except ValueError:
        return []


def asap_fits(sfg, T, cyclic) -> bool:
    """The ASAP schedule exists and lies within the bounds of the model."""
    bounds = [machine.read(b) for b in windows(sfg, T, cyclic)]
    if len(bounds) < 2:
        return False
    lo, hi = bounds
    return all(lo.ops[n]["s"] <= hi.ops[n]["s"] for n in lo.ops)


def returned(sfg, scheduler, T, cyclic) -> bool:
    try:
        attempt(sfg, scheduler, T, cyclic)
    except ValueError:
        return False
    return True


def graph(sfg):
    from dst.model import netlist_of

    nl = netlist_of(sfg)
    return repr(sorted((str(k), str(v)) for k, v in vars(nl).items()))


def check(s, sfg, T, c, gid, orig, ins, ref, solver, kind, asap, cov):
    if s.schedule_time != T:
        raise Violation("period-not-kept", f"asked {T}, got {s.schedule_time}", "T")
    p = machine.read(s)
    machine.check_times(p)
    r = machine.retiming(p, orig)
    machine.check_sfg(s, p)
    machine.compare(machine.execute(p, r, ins, 4, cov), ref)
    for i, v in (c.get("in_times") or {}).items():
        have = p.ops[gen.node_name(int(i))]["s"]
        if (have - v) % T:
            raise Violation("input-time-not-kept", f"n{i} at {have}, asked {v}", "in")
    if c["max"] is None and solver.used:
        worst = peak(p, T)
        for t, n in worst.items():
            promised = solver.used.get(f"R_used_{t}")
            if promised is not None and n > round(promised):
                raise Violation(
                    "too-many-resources", f"{n} of {t} at once, the solution has {promised}", "limit"
                )
        if kind in ("ok", "noise") and T >= asap.schedule_time:
            base = peak(machine.read(asap), T)
            if sum(worst.values()) > sum(base.values()):
                raise Violation("worse-than-asap", f"{worst}, asap {base}", "optimum")
            if not c.get("in_times"):
                bounds = [machine.read(b) for b in windows(sfg, T, c["cyclic"])]
                have = sum(worst.values())
                best = optimum(orig, *bounds, T, have) if len(bounds) == 2 else None
                cov.probe("optimum:" + ("searched" if best is not None else "skipped"))
                if best is not None and best < have:
                    raise Violation("not-optimal", f"{have} resources, {best} do", "optimum")


def optimum(spec_edges, lo, hi, T, below: int) -> int | None:
    """
    Smallest sum of peaks over all legal start times within the bounds of ASAP and ALAP,
    searched exhaustively; None if the space is too large. Only values < below matter.
    """
    names = sorted(lo.ops, key=lambda n: (lo.ops[n]["s"], n))
    ops = {n: lo.ops[n] for n in names}
    space = 1
    for n in names:
        space *= max(1, hi.ops[n]["s"] - ops[n]["s"] + 1)
    if space > 3000:
        return None
    into: dict = {}
    for (dst, i), (src, port, d) in spec_edges.items():
        if dst in ops and src in ops:
            c = ops[src]["outs"][port] - ops[dst]["ins"][i] - d * T
            into.setdefault(dst, []).append((src, c, True))
            into.setdefault(src, []).append((dst, c, False))
    best = below
    start: dict = {}
    count: dict = {}

    def total():
        top: dict = {}
        for (t, _), n in count.items():
            top[t] = max(top.get(t, 0), n)
        return sum(top.values())

    def place(k):
        nonlocal best
        if total() >= best:
            return
        if k == len(names):
            best = total()
            return
        n = names[k]
        o = ops[n]
        for t in range(o["s"], hi.ops[n]["s"] + 1):
            ok = True
            start[n] = t
            for other, c, incoming in into.get(n, []):
                if other in start and (t < start[other] + c if incoming else start[other] < t + c):
                    ok = False
                    break
            if ok:
                slots = [(o["t"], j) for j in range(t, min(T + 1, t + (o["ex"] or 0)))]
                for q in slots:
                    count[q] = count.get(q, 0) + 1
                place(k + 1)
                for q in slots:
                    count[q] -= 1
            del start[n]

    place(0)
    return best


def peak(p, T) -> dict:
    """type -> largest number of operations that execute at once"""
    out: dict = {}
    for j in range(T + 1):
        use: dict = {}
        for o in p.ops.values():
            if o["t"] not in ("dontcare", "sink") and o["s"] <= j < o["s"] + (o["ex"] or 0):
                use[o["t"]] = use.get(o["t"], 0) + 1
        for t, n in use.items():
            out[t] = max(out.get(t, 0), n)
    return out


def simplify(t):
    if not t["c"].get("in_times"):
        for g in sched.simplify_graph(t["g"]):
            yield dict(t, g=g, stim=t["stim"][: sched.n_inputs(g["spec"])])
    else:
        yield dict(t, c={k: v for k, v in t["c"].items() if k != "in_times"})
    if t["c"]["max"]:
        yield dict(t, c=dict(t["c"], max=t["c"]["max"] - 1))


SHRINK_LISTS = {"seq"}
