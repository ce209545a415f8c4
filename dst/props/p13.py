"""P13: saved signal-flow graphs and schedules reload as what was saved."""

from __future__ import annotations

import pickle
from collections import Counter

from dst import disk, edits, gen, machine, sched
from dst.core import InvalidTrace, Violation, hash_key
from dst.model import FUNCS, eq, netlist_of

EPISODES = {"quick": 1500, "thorough": 60000}
RULE = (
    "one run = one random graph or edited schedule and a history of saves, loads, edits and crashes on a "
    "simulated disk that fails, fills up, tears and loses writes; distinct = distinct trace with "
    "at least one load that returned a design"
)
REAL = ["b_asic.save_load_structure", "pickling of SFG and Schedule", "SFG and Schedule construction"]
STUB = ["disk: in-memory files under io.open with injected faults"]
ASSUMPTIONS = [
    "the caller writes the text or pickle to the file, as the graphical editors do",
    "lost sectors read back as zeros",
    "the positions in a file cut short may be missing",
]
TIME_UNIT = "file operations"
STATE_MEASURE = "hash of the canonical form of every design loaded"

WEIRD = ["", "a b", "x-y", "3rd", "it's", 'say "hi"', 'tri"""ple', "back\\slash", "new\nline", "ünï", "class",
         "in0", "add0", "SFG", "Signal", "prop", "a.b", "{x}", "%s", "#no", "'", "\\", "\\n'", "positions",
         "sfg", "None", "Addition", "s0", "_", "t0"]
SAVE_FAULTS = ["open-fails", "disk-full", "crash", "interrupt", "write-error", "short-write"]
LOAD_FAULTS = ["open-fails", "read-error", "short-read"]


def generate(rng, index, tier):
    kind = rng.choice(["sfg", "schedule", "schedule"])
    if kind == "schedule":
        cplx = rng.random() < 0.15
        g = sched.random_timed(rng, rng.randint(1, 7), zero=rng.random() < 0.2, cplx=cplx,
                               types=sched.CTYPES if cplx else sched.TYPES)
    else:
        cplx = rng.random() < 0.25
        spec = gen.random_sfg(rng, rng.randint(1, 8), gen.COMPLEX if cplx else gen.REAL, n_in=rng.randint(1, 3),
                              init_prob=0.4, nested_prob=rng.choice([0, 0, 0.3]), cplx=cplx)
        g = {"spec": spec, "timing": sched.timing(rng, spec, True) if rng.random() < 0.6 else {}}
    n = len(g["spec"]["nodes"])
    g["odd"] = [[rng.randrange(n), rng.randint(1, 2)] for _ in range(rng.choice([0, 0, 1]))]
    t = {
        "kind": kind, "g": g, "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.randint(0, 5), 0, lat=True),
        "stim": gen.stimuli(rng, sched.n_inputs(g["spec"]), 5, cplx),
        "name": rng.randrange(len(WEIRD)),
        "names": [[rng.randrange(n), rng.randrange(len(WEIRD))] for _ in range(rng.choice([0, 0, 1, 3, n]))],
        "sigs": [[rng.randrange(n), rng.choice([None, 8, 0]), rng.randrange(len(WEIRD))]
                 for _ in range(rng.choice([0, 0, 1, 2]))],
        "nested_timing": [[rng.randrange(n), rng.randint(0, 3), rng.randint(0, 3)]
                          for _ in range(rng.choice([0, 1, 2]))],
        "io_timing": [[rng.randrange(n), rng.randint(0, 2)] for _ in range(rng.choice([0, 0, 0, 1]))],
        "steps": [],
    }
    for _ in range(rng.randint(1, 5)):
        route = rng.choice(["text", "text", "text", "pickle"])
        p = rng.randrange(2)
        f = None
        if rng.random() < 0.4:
            f = {"k": rng.choice(SAVE_FAULTS), "at": offset(rng)}
        lost = None
        if rng.random() < 0.35:
            lost = {"k": rng.choice(["cut", "cut", "cut", "zero", "zero-tail"]), "at": offset(rng),
                    "len": rng.randint(1, 4), "line": rng.choice([None, None, rng.randint(-60, 0)])}
        t["steps"].append({"op": "save", "route": route, "path": p, "fault": f, "lost": lost,
                           "pos": rng.random() < 0.3, "probe": rng.random() < 0.05})
        if rng.random() < 0.8:
            t["steps"].append({"op": "load", "path": p if rng.random() < 0.85 else 1 - p,
                               "fault": {"k": rng.choice(LOAD_FAULTS), "at": offset(rng)}
                               if rng.random() < 0.2 else None,
                               "go_on": rng.random() < 0.6})
        if kind == "schedule" and rng.random() < 0.5:
            t["steps"].append({"op": "edit", "hist": edits.gen_history(rng, g["spec"], rng.randint(1, 3), 0.1,
                                                                       lat=True)})
    return t


def offset(rng):
    return rng.choice([rng.randrange(300), rng.randrange(3000), rng.randrange(20000)])


# --------------------------------------------------------------------------------------
# What a design is, apart from how its parts are called inside
# --------------------------------------------------------------------------------------
def value(v):
    """The same number, whatever type holds it."""
    if isinstance(v, (tuple, list)):
        return tuple(value(x) for x in v)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return repr(v)
    try:
        return repr(complex(v) + 0)  # a zero has no sign
    except (TypeError, ValueError):
        return repr(v)


def canon(sfg, ops=None, starts=None, laps=None):
    """(labels of the operations, hash of the wired graph)"""
    labels, idx = [], {}
    ops = list(ops or sfg.operations)
    for i, op in enumerate(ops):
        idx[op.graph_id] = i
        sub = canon(op) if op.type_name() == "sfg" else None
        par = () if sub else tuple(sorted((k, value(v)) for k, v in op.params.items()))
        labels.append((
            type(op).__name__, "" if sub else op.name, par,
            tuple(q.latency_offset for q in op.inputs), tuple(q.latency_offset for q in op.outputs),
            op.execution_time, sub and sub[1],
            None if starts is None else starts.get(op.graph_id),
            tuple((q.signals[0].bits, q.signals[0].name,
                   None if laps is None else laps.get(q.signals[0].graph_id, 0)) for q in op.inputs),
        ))
    h = [hash_key(x) for x in labels]
    wires = [[(idx[q.signals[0].source.operation.graph_id], q.signals[0].source.index) for q in op.inputs]
             for op in ops]
    readers = [[] for _ in ops]
    for i, w in enumerate(wires):
        for k, (s, p) in enumerate(w):
            readers[s].append((p, k, i))
    for _ in range(len(ops)):
        h = [hash_key((h[i], [(h[s], p) for s, p in wires[i]],
                       sorted((p, k, h[j]) for p, k, j in readers[i]))) for i in range(len(ops))]
    if sfg is None:  # a schedule
        return Counter(labels), hash_key(sorted(h))
    ins = [h[idx[o.graph_id]] for o in sfg.input_operations]
    outs = [h[idx[o.graph_id]] for o in sfg.output_operations]
    return Counter(labels), hash_key((sorted(h), ins, outs))


class Snap:
    """A design as saved."""

    def __init__(self, design, stim):
        self.kind = "schedule" if hasattr(design, "schedule_time") else "sfg"
        if self.kind == "schedule":
            self.sfg = design.sfg
            self.head = (design.schedule_time, design.cyclic, canon(design.sfg)[1])
            self.labels, self.h = canon(None, machine.live_ops(design).values(), design.start_times,
                                        dict(design.laps))
        else:
            self.sfg = design
            self.head = ()
            self.labels, self.h = canon(design)
        self.name = self.sfg.name
        nl = netlist_of(self.sfg)
        try:
            self.out = None if self.kind == "schedule" else nl.run(gen.live_stimuli(stim), 5)
        except (OverflowError, TypeError):
            self.out = None

    def differs(self, other):
        """What a loaded design has that the saved one had not (or nothing)."""
        if self.kind != other.kind:
            return f"a {other.kind} instead of a {self.kind}"
        if self.head != other.head:
            return f"period, cyclicity and graph {other.head} instead of {self.head}"
        gone, new = self.labels - other.labels, other.labels - self.labels
        if gone or new:
            return f"operations {fmt(new)} instead of {fmt(gone)}"
        if self.h != other.h:
            return "the same operations, wired differently"
        if self.name and self.name != other.name:
            return f"name {other.name!r} instead of {self.name!r}"
        if self.out is not None and other.out is not None and not all(
            eq(a, b) for x, y in zip(self.out, other.out, strict=True) for a, b in zip(x, y, strict=True)
        ):
            return f"outputs {other.out} instead of {self.out}"
        return ""


def fmt(c):
    return sorted(str(x) for x in c)[:2]


def same_snap(a, b):
    return not a.differs(b)


# --------------------------------------------------------------------------------------
def make(t, cov):
    """The design at the start, and the session that edits it."""
    spec = t["g"]["spec"]
    gen.check_spec(spec)
    sched.valid_timing(t["g"])
    ses = None
    if t["kind"] == "schedule":
        ses = edits.Session(dict(t, stim=[]), cov)
        if ses.sch is None or ses.sch.schedule_time == 0:
            raise InvalidTrace
        for h in t["hist"]:
            try:
                ses.apply(h)
            except Violation:
                raise InvalidTrace from None
        sfg = ses.sch.sfg
        if any(v < 0 for v in ses.sch.laps.values()):
            raise InvalidTrace  # a known finding of P02, and refused when loaded
    else:
        sfg = gen.build(spec)
        sched.apply_timing(sfg, t["g"])
    by_name = {op.name: op for op in sfg.operations}
    for i, lat, ex in t["nested_timing"]:
        op = by_name.get(gen.node_name(i))
        if op is not None and op.type_name() == "sfg":
            op.set_latency(lat)
            op.execution_time = ex
    if t["kind"] == "sfg":
        for i, lat in t["io_timing"]:
            op = by_name.get(gen.node_name(i))
            if op is not None and op.type_name() in ("in", "t"):
                op.set_latency(lat)
    for i, bits, w in t["sigs"]:
        op = by_name.get(gen.node_name(i))
        if op is not None and op.inputs:
            sig = op.input(0).signals[0]
            sig.bits = bits
            sig.name = WEIRD[w]
    if ses is None:
        for i, w in t["names"]:
            op = by_name.get(gen.node_name(i))
            if op is not None:
                op.name = WEIRD[w]
    sfg.name = WEIRD[t["name"]]
    return ses, (ses.sch if ses else sfg)


def encode(design, route, pos):
    from b_asic.save_load_structure import schedule_to_python, sfg_to_python

    if route == "pickle":
        return pickle.dumps(design)
    if hasattr(design, "schedule_time"):
        return schedule_to_python(design)
    return sfg_to_python(design, suffix=pos)


def load(path, route, kind):
    """Load as a user does. Returns (design, positions)."""
    from b_asic.save_load_structure import python_to_sfg

    if route == "pickle":
        with open(path, "rb") as f:
            return pickle.load(f), None
    if kind == "sfg":
        return python_to_sfg(path)
    # A saved schedule is a Python file to run
    from b_asic.schedule import Schedule

    with open(path) as f:
        code = f.read()
    ns = {"__name__": "loaded"}
    exec(compile(code, path, "exec"), ns)
    found = [v for v in ns.values() if isinstance(v, Schedule)]
    if len(found) != 1:
        raise ValueError(f"{len(found)} schedules in the file")
    return found[0], None


def execute(trace, cov):
    t = trace
    ses, design = make(t, cov)
    kind = t["kind"]
    stim = t["stim"]
    with disk.Disk(cov) as d:
        saved: dict = {}  # path -> (snap, route, positions, whole: is the content known to be all there)
        loaded_any = False
        for step in t["steps"]:
            cov.step()
            cov.sim_time += 1
            if step["op"] == "edit":
                if ses is None:
                    continue
                for h in step["hist"]:
                    try:
                        ses.apply(h)
                    except Violation:
                        raise InvalidTrace from None
                design = ses.sch
                if any(v < 0 for v in design.laps.values()):
                    return
                continue
            path = f"{disk.ROOT}f{step['path']}"
            if step["op"] == "save":
                pos = {"in0": (step["path"], 7, True)} if step["pos"] else None
                before = Snap(design, stim)
                try:
                    data = encode(design, step["route"], f"positions = {pos}" if pos else None)
                except Exception as e:
                    raise Violation("cannot-save", f"{step['route']}: {type(e).__name__}: {e}",
                                    step["route"]) from None
                if not same_snap(before, Snap(design, stim)):
                    raise Violation("saving-changed-design", before.differs(Snap(design, stim)), kind)
                f = step["fault"]
                d.arm(f)
                whole = True
                try:
                    with open(path, "wb" if step["route"] == "pickle" else "w") as fh:
                        fh.write(data)
                except OSError:
                    whole = False
                except (disk.SimCrash, disk.InjectedInterrupt):
                    whole = False
                d.arm(None)
                if f and f["k"] == "open-fails":
                    continue
                if step["lost"]:
                    lost = dict(step["lost"])
                    content = d.files[path]
                    if lost.get("line") is not None and content:
                        ends = [i + 1 for i, c in enumerate(content) if c == 10]
                        if ends:
                            lost["at"] = ends[lost["line"] % len(ends)] - lost["at"] % 2
                    d.damage(path, lost)
                    whole = False
                saved[path] = (before, step["route"], pos, whole)
                cov.log("save", path, whole, len(d.files[path]))
                if step["probe"] and step["route"] == "text":
                    sweep(d, path, before, kind, stim, pos, cov)
                continue
            # load
            if path not in saved:
                continue
            snap, route, pos, whole = saved[path]
            d.arm(step["fault"])
            try:
                got, gpos = load(path, route, kind)
            except Exception as e:
                d.arm(None)
                cov.log("refused", type(e).__name__)
                if whole and not (step["fault"] and step["fault"]["k"] != "short-read"):
                    raise Violation("cannot-load", f"{route}: {type(e).__name__}: {str(e)[:200]}",
                                    f"{route}:{type(e).__name__}") from None
                if whole:
                    # The fault is gone: the file is as good as ever
                    try:
                        got, gpos = load(path, route, kind)
                    except Exception as e2:
                        raise Violation("cannot-load", f"after a read error: {route}: {type(e2).__name__}: {e2}",
                                        f"{route}:{type(e2).__name__}") from None
                else:
                    cov.probe("refused-damaged")
                    continue
            d.arm(None)
            new = judge(snap, got, gpos, pos, whole, route, stim)
            loaded_any = True
            cov.probe(f"loaded-{route}{'' if whole else '-damaged'}")
            cov.state(new.h, new.head)
            cov.log("loaded", new.h, new.head)
            if route == "text" and kind == "schedule" and whole:
                from b_asic.save_load_structure import python_to_sfg

                s2, _ = python_to_sfg(path)
                a, b = canon(snap.sfg), canon(s2)
                if a != b:
                    raise Violation("different-design", "the graph in a schedule file differs", "schedule-sfg")
            if step["go_on"] and whole:
                # Go on with the loaded design instead
                if ses is not None:
                    if same_snap(snap, Snap(ses.sch, stim)):
                        follow(ses, got)
                    ses.sch = got
                    ses.gid = {op.name: g for g, op in machine.live_ops(got).items()}
                design = got
    if loaded_any:
        cov.nontrivial.add(cov.digest()[:16])


def judge(snap, got, gpos, pos, whole, route, stim):
    try:
        new = Snap(got, stim)
    except Exception as e:
        raise Violation("different-design", f"{route}: not usable: {type(e).__name__}: {e}", "unusable") from None
    diff = snap.differs(new)
    if diff:
        raise Violation("different-design", f"{'' if whole else 'damaged '}{route}: loaded {diff}"[:900],
                        f"{route}:{whole}:{diff.split()[0]}")
    if gpos is not None and gpos != (pos or {}) and (whole or gpos):
        raise Violation("different-positions", f"{gpos} instead of {pos}", "positions")
    return new


def sweep(d, path, snap, kind, stim, pos, cov):
    """The file is cut at the end of every line, just before it, and at some other points."""
    data = d.files[path]
    cov.probe("cut-sweep")
    ends = [i for i, c in enumerate(data) if c == 10]
    for n in sorted({*ends, *(i + 1 for i in ends), *range(0, len(data), 97)}):
        d.files[path] = data[:n]
        cov.fault("lost-cut")
        try:
            got, gpos = load(path, "text", kind)
        except Exception:
            continue
        judge(snap, got, gpos, pos, False, "text", stim)
    d.files[path] = data


def follow(ses, got):
    """The same edit has the same effect on the loaded schedule."""
    ops_a = {op.name: g for g, op in machine.live_ops(ses.sch).items()}
    ops_b = {op.name: g for g, op in machine.live_ops(got).items()}
    if set(ops_a) != set(ops_b):
        return
    for n in sorted(ops_a):
        if ses.sch.slacks(ops_a[n]) != got.slacks(ops_b[n]):
            raise Violation("different-slack", f"{n}: {got.slacks(ops_b[n])} instead of "
                            f"{ses.sch.slacks(ops_a[n])}", "slack")


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        yield dict(t, g=g, stim=t["stim"][: sched.n_inputs(g["spec"])])
    if t["name"]:
        yield dict(t, name=1)
    for i, s in enumerate(t["steps"]):
        for k in ("fault", "lost"):
            if s.get(k):
                yield dict(t, steps=t["steps"][:i] + [dict(s, **{k: None})] + t["steps"][i + 1:])
        if s.get("probe") or s.get("pos"):
            yield dict(t, steps=t["steps"][:i] + [dict(s, probe=False, pos=False)] + t["steps"][i + 1:])


SHRINK_LISTS = {"hist", "steps", "names", "sigs", "nested_timing", "io_timing", "g.odd", "steps.hist"}
