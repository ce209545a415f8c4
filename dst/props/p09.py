"""P09: architecture edits keep every process on exactly one resource."""

from __future__ import annotations

from collections import Counter

import random

from dst import edits, sched
from dst.core import InvalidTrace, Violation
from dst.solver import FAULTS, InjectedInterrupt, make_solver

EPISODES = {"quick": 5000, "thorough": 100000}
RULE = (
    "one run = one architecture (random scheduled SFG, random split into elements and memories) and a "
    "history of random edits, some of which must fail (solver faults and interrupts included); "
    "distinct = distinct trace with at least one process moved"
)
REAL = ["b_asic.architecture.Architecture, ProcessingElement, Memory", "b_asic.resources splits", "CBC"]
STUB = ["solver outcome: a pulp.LpSolver that runs CBC and alters or replaces its answer"]
ASSUMPTIONS = ["resources are edited through the architecture or, for assignment and naming, themselves"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of the placement (process names per resource) after each edit"

HOWS = ["left_edge", "left_edge", "greedy_graph_color", "ilp_graph_color", "nonsense"]


def generate(rng, index, tier):
    while True:
        g = sched.random_timed(rng, rng.randint(2, 8), delay_prob=0.3, sink_prob=0)
        if all(n["t"] != "sink" for n in g["spec"]["nodes"]):
            break
    g["odd"] = [[rng.randrange(len(g["spec"]["nodes"])), rng.randint(1, 2)]
                for _ in range(rng.choice([0, 0, 1, 2]))]
    t = {
        "g": g,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.randint(0, 4), 0),
        "chain": rng.random() < 0.3,
        "pe": rng.randrange(10**6),
        "spread": rng.random().__round__(2),
        "limits": rng.choice([None, None, [1, 1, 2], [1, 1, 1], [2, 2, 3], [2, 2, 2]]),
        "register": rng.random() < 0.2,
        "seed": rng.randrange(10**6),
        "acts": [],
    }
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["move"] * 8 + ["drain", "drain", "assign", "assign", "assign_all", "remove", "remove",
                                       "re_add", "rename", "bad_move", "copy_in"])
        t["acts"].append({
            "op": k, "p": rng.randrange(999), "r": rng.randrange(999), "assign": rng.random() < 0.5,
            "near": rng.random() < 0.75, "name": rng.choice([0, 0, 1, 2, 3]), "how": rng.choice(HOWS),
            "out": "ok" if rng.random() < 0.5 else rng.choice(FAULTS),
        })
    return t


def build(t, cov):
    """A legal architecture, and the loose pieces of the model."""
    from b_asic.architecture import Architecture, Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    sched.valid_timing(t["g"])
    if any(n["t"] == "sink" for n in t["g"]["spec"]["nodes"]):
        raise InvalidTrace  # get_operations leaves them out
    ses = edits.Session(dict(t, stim=[]), cov)
    s = ses.sch
    if s is None or s.schedule_time == 0:
        raise InvalidTrace
    for h in t["hist"]:
        try:
            ses.apply(h)
        except Violation:
            raise InvalidTrace from None
    T = s.schedule_time
    ops = s.get_operations()
    if any(p.execution_time > T for p in ops):
        raise InvalidTrace
    rng = random.Random(t["pe"])
    pes = []
    for part in alike(ops):
        for part in part.split_on_execution_time():
            procs = sorted(part, key=lambda p: p.operation.graph_id)
            while procs:
                k = rng.randint(1, len(procs)) if rng.random() < t["spread"] else len(procs)
                pes.append(ProcessingElement(ProcessCollection(procs[:k], T, ops._cyclic), f"pe{len(pes)}"))
                procs = procs[k:]
    direct, mv = s.get_memory_variables().split_on_length()
    if t["chain"] or any(v.execution_time > T for v in mv):
        mv = mv.split_into_chains()
    if any(v.execution_time > T for v in mv):
        raise InvalidTrace
    mems = []
    vs = sorted(mv, key=lambda v: v.name)
    while vs:
        k = rng.randint(1, len(vs)) if rng.random() < t["spread"] else len(vs)
        name = f"mem{len(mems)}"
        kind = "register" if t["register"] and rng.random() < 0.5 else "RAM"
        args = dict(zip(("read_ports", "write_ports", "total_ports"), t["limits"] or (None,) * 3, strict=True))
        try:
            m = Memory(ProcessCollection(vs[:k], T, True), kind, name, **args)
        except ValueError:
            k = 1
            try:
                m = Memory(ProcessCollection(vs[:1], T, True), kind, name, **args)
            except ValueError:
                m = Memory(ProcessCollection(vs[:1], T, True), kind, name)
        mems.append(m)
        vs = vs[k:]
    try:
        arch = Architecture(pes, mems, direct_interconnects=direct)
    except ValueError as e:
        raise Violation("legal-architecture-refused", f"{e}", "init") from None
    return arch, direct, T


def alike(ops):
    """Operations that fit on one kind of element."""
    from b_asic.resources import ProcessCollection

    groups: dict = {}
    for p in ops:
        groups.setdefault((str(type(p.operation)), p.operation.latency), []).append(p)
    return [ProcessCollection(sorted(v, key=str), ops.schedule_time, ops._cyclic)
            for _, v in sorted(groups.items(), key=lambda x: str(x[0]))]


def resources(arch):
    return [*arch.processing_elements, *arch.memories]


def snapshot(arch):
    return {
        "pes": [id(r) for r in arch.processing_elements],
        "memories": [id(r) for r in arch.memories],
        "names": {id(r): r.entity_name for r in resources(arch)},
        "placement": {id(r): sorted(id(p) for p in r.collection) for r in resources(arch)},
        "assigned": {
            id(r): None if r.assignment is None
            else sorted(sorted(id(p) for p in c) for c in r.assignment)
            for r in resources(arch)
        },
    }


def routes(arch, direct):
    """The routing that the placement implies: two-level counters by resource."""
    from b_asic.process import MemoryInputPort, MemoryOutputPort

    of_op = {p.operation: pe for pe in arch.processing_elements for p in pe.collection}
    of_var = {id(v): m for m in arch.memories for v in m.collection}
    into: dict = {}  # (pe, input) -> Counter of (resource, port)
    outof: dict = {}
    reads: dict = {}  # memory -> Counter of elements
    writes: dict = {}
    mux: dict = {}  # (resource, input) -> set of (resource, output)
    # One operation reads or writes one port once per period
    for m in arch.memories:
        wr, rd = writes.setdefault(m, Counter()), reads.setdefault(m, Counter())
        for v in m.collection:
            if isinstance(v.write_port, MemoryOutputPort):
                src = of_var[id(v.write_port.source_variable)]
                wr[src] += 1
                mux.setdefault((m, 0), set()).add((src, 0))
            else:
                pe = of_op[v.write_port.operation]
                wr[pe] += 1
                mux.setdefault((m, 0), set()).add((pe, v.write_port.index))
            for q in v.read_ports:
                if isinstance(q, MemoryInputPort):
                    continue
                pe = of_op[q.operation]
                rd[pe] += 1
                mux.setdefault((pe, q.index), set()).add((m, 0))
    for v in direct:
        src = of_op[v.write_port.operation]
        for q in v.read_ports:
            mux.setdefault((of_op[q.operation], q.index), set()).add((src, v.write_port.index))
    # Per port of each operation: the resources it exchanges values with
    for pe in arch.processing_elements:
        for p in pe.collection:
            for i, q in enumerate(p.operation.inputs):
                c = into.setdefault((pe, i), Counter())
                for r in sources(q, arch, direct, of_op):
                    c[r] += 1
            for o, q in enumerate(p.operation.outputs):
                c = outof.setdefault((pe, o), Counter())
                for r in sinks(q, arch, direct, of_op):
                    c[r] += 1
    return into, outof, reads, writes, mux


def sources(q, arch, direct, of_op):
    out = {(m, 0) for m in arch.memories for v in m.collection if any(x is q for x in v.read_ports)}
    for v in direct:
        if any(x is q for x in v.read_ports):
            out.add((of_op[v.write_port.operation], v.write_port.index))
    return out


def sinks(q, arch, direct, of_op):
    out = {(m, 0) for m in arch.memories for v in m.collection if v.write_port is q}
    for v in direct:
        if v.write_port is q:
            out |= {(of_op[x.operation], x.index) for x in v.read_ports}
    return out


def show(d):
    return sorted((str(k), v) for k, v in d.items())


def check(arch, direct, T, everything, after):
    have = Counter(id(p) for r in resources(arch) for p in r.collection)
    if have != everything:
        raise Violation("process-lost-or-doubled", f"after {after}", after)
    for pe in arch.processing_elements:
        if len({(type(p.operation), p.operation.latency) for p in pe.collection}) > 1:
            raise Violation("mixed-element", f"{pe}: {[str(p) for p in pe.collection]}", after)
    for r in resources(arch):
        if r.assignment is not None:
            check_assignment(r, T, after)
    try:
        arch.validate_ports()
    except ValueError as e:
        raise Violation("ports-invalid", f"{e}", after) from None
    into, outof, reads, writes, mux = routes(arch, direct)
    for pe in arch.processing_elements:
        for handle in (pe, pe.entity_name):
            got_in, got_out = arch.get_interconnects_for_pe(handle)
            for got, want, what in ((got_in, into, "in"), (got_out, outof, "out")):
                for i, d in enumerate(got):
                    if Counter(d) != want.get((pe, i), Counter()):
                        raise Violation("routing-differs", f"{what}{i} of {pe}: {show(d)}, placement says"
                                        f" {show(want.get((pe, i), {}))}", f"{after}:{what}")
        check_control(pe, T, after)
    for m in arch.memories:
        for handle in (m, m.entity_name):
            got_w, got_r = arch.get_interconnects_for_memory(handle)
            for got, want, what in ((got_w, writes, "writes"), (got_r, reads, "reads")):
                if Counter(got) != want[m]:
                    raise Violation("routing-differs", f"{what} of {m}: {show(got)}, placement says"
                                    f" {show(want[m])}", f"{after}:{what}")
    want = sum(len(x) for x in mux.values())
    if arch.get_multiplexer_input_count() != want:
        raise Violation("mux-count-differs", f"{arch.get_multiplexer_input_count()}, not {want}", after)
    want = sum(len(x) for x in mux.values() if len(x) > 1)
    if arch.get_multiplexer_input_count(multiplexed_only=True) != want:
        raise Violation("mux-count-differs", f"multiplexed only, not {want}", after)


def check_assignment(r, T, after):
    from b_asic.architecture import ProcessingElement

    if Counter(id(p) for c in r.assignment for p in c) != Counter(id(p) for p in r.collection):
        raise Violation("assignment-stale", f"{r}: {[[str(p) for p in c] for c in r.assignment]},"
                        f" holds {[str(p) for p in r.collection]}", after)
    pe = isinstance(r, ProcessingElement)
    if pe and len(r.assignment) > 1:
        raise Violation("element-overlaps", f"{r}", after)
    if pe or r._memory_type == "RAM":
        for c in r.assignment:
            use: Counter = Counter()
            for p in c:
                use.update((p.start_time + k) % T for k in range(p.execution_time))
            if use and max(use.values()) > 1:
                raise Violation("assignment-overlaps", f"{r}: {[str(p) for p in c]}", after)
    if not pe:
        w: Counter = Counter(v.start_time % T for v in r.collection)
        d: Counter = Counter(x % T for v in r.collection for x in set(v.read_times))
        for use, lim, what in ((w, r.input_count, "writes"), (d, r.output_count, "reads"),
                               (w + d, r._total_ports, "total")):
            if use and lim is not None and max(use.values()) > lim:
                raise Violation("ports-exceeded", f"{r}: {max(use.values())} {what}, {lim} declared",
                                f"{after}:{what}")


def check_control(pe, T, after):
    use: Counter = Counter()
    for p in pe.collection:
        use.update((p.start_time + k) % T for k in range(p.execution_time))
    if not use or max(use.values()) > 1:
        return
    table = pe.control_table
    for p in pe.collection:
        # needed from the cycle in which the first input arrives
        at = p.start_time + min(p.operation.input_latency_offsets, default=0)
        for name, v in p.operation.params.items():
            if isinstance(v, complex):
                rows = [(name + "_real", v.real), (name + "_imag", v.imag)]
            else:
                rows = [(name, v)]
                if name not in table:  # others of the element are complex
                    rows = [(name + "_real", v.real), (name + "_imag", v.imag)]
            for key, want in rows:
                got = {t % T: x for t, x in table[key].values.items()}
                if got.get(at % T) != want:
                    raise Violation("control-differs", f"{pe} {p} {key}: {got}, {at}: {want}", after)


def execute(trace, cov):
    import pulp

    from b_asic.architecture import Memory, ProcessingElement

    arch, direct, T = build(trace, cov)
    everything = Counter(id(p) for r in resources(arch) for p in r.collection)
    keep = [p for r in resources(arch) for p in r.collection]
    solver = make_solver(trace["seed"], cov)
    removed: list = []
    check(arch, direct, T, everything, "init")
    moved = 0
    for a in trace["acts"]:
        rs = resources(arch)
        before = snapshot(arch)
        op = a["op"]
        full = [r for r in rs if len(r.collection)]
        src = full[a["p"] % len(full)]
        expect = None
        solver.outcome = a["out"]
        try:
            if op in ("move", "bad_move", "drain"):
                if a["near"]:
                    could = [r for r in full if any(
                        should_move(p, r, d) for p in r.collection for d in rs)]
                    src = could[a["p"] % len(could)] if could else src
                procs = sorted(src.collection, key=str)
                p = procs[a["p"] // 7 % len(procs)]
                dests = rs
                if a["near"]:
                    same = [r for r in rs if should_move(p, src, r)]
                    dests = same or rs
                dst = dests[a["r"] % len(dests)]
                if op == "bad_move":
                    src = rs[a["r"] // 5 % len(rs)]
                todo = procs if op == "drain" else [p]
                for p in todo:
                    expect = (p, src, dst)
                    args = (str(p) if a["name"] & 1 and op != "bad_move" else p,
                            src.entity_name if a["name"] & 2 else src,
                            dst.entity_name if a["name"] & 2 else dst)
                    before = snapshot(arch)
                    arch.move_process(*args, assign=a["assign"])
                    check_moved(p, src, dst, args[0], before, arch)
                    if a["assign"] and not (src.is_assigned and dst.is_assigned):
                        raise Violation("not-assigned", f"{src} or {dst} after move", "move")
                    moved += 1
                    check(arch, direct, T, everything, op)
            elif op == "assign":
                src.assign(a["how"], alg_params={"solver": solver})
                if not src.is_assigned:
                    raise Violation("not-assigned", f"{src}", op)
            elif op == "assign_all":
                arch.assign_resources(a["how"] if "ilp" not in a["how"] else "left_edge")
                if not all(r.is_assigned for r in rs):
                    raise Violation("not-assigned", "", op)
            elif op == "remove":
                empty = [r for r in rs if not len(r.collection)]
                r = empty[a["r"] % len(empty)] if empty and a["near"] else rs[a["r"] % len(rs)]
                wanted = len(r.collection) == 0
                arch.remove_resource(r.entity_name if a["name"] & 2 else r)
                if not wanted:
                    raise Violation("full-resource-removed", f"{r}", op)
                if any(x is r for x in resources(arch)):
                    raise Violation("not-removed", f"{r}", op)
                removed.append(r)
            elif op == "re_add":
                if not removed:
                    continue
                r = removed.pop()
                arch.add_resource(r)
                if not any(x is r for x in resources(arch)):
                    raise Violation("not-added", f"{r}", op)
            elif op == "rename":
                r = rs[a["r"] % len(rs)]
                name = f"new{a['p']}x{a['r']}" if a["near"] else "not a name"
                r.set_entity_name(name)
                if r.entity_name != name or arch.resource_from_name(name) is not r:
                    raise Violation("not-renamed", f"{r}", op)
            elif op == "copy_in":
                # a process that the resource already holds
                p = list(src.collection)[a["p"] % len(src.collection)]
                src.add_process(p, assign=a["assign"])
                raise Violation("process-doubled", f"{p} in {src}", op)
        except (ValueError, KeyError, TypeError, pulp.PulpSolverError, InjectedInterrupt) as e:
            cov.log(op, "raised", type(e).__name__, str(e)[:50])
            cov.probe(f"{op}:raised")
            cov.fault(f"edit-fails-{op}")
            after = snapshot(arch)
            if op in ("assign_all", "assign"):
                # Each resource is assigned on its own; one that cannot be loses its assignment
                for s in (before, after):
                    s.pop("assigned")
            if after != before:
                d = edits.diff(before, after)
                raise Violation("failed-edit-changed", f"{op} ({type(e).__name__}: {e}): {d[:150]}", op) from None
            if op in ("move", "drain") and not a["assign"] and expect and should_move(*expect):
                raise Violation("possible-edit-refused", f"{op} {expect}: {e!r}", op) from None
        else:
            cov.probe(f"{op}:done")
        cov.step()
        check(arch, direct, T, everything, op)
        key = [sorted(str(p) for p in r.collection) for r in resources(arch)]
        cov.log(op, key)
        cov.state(key)
    if moved:
        cov.nontrivial.add(cov.digest()[:16])


def suits(r, p) -> bool:
    from b_asic.process import OperatorProcess

    if isinstance(p, OperatorProcess):
        return r.operation_type is type(p.operation)
    return isinstance(p, r.operation_type)


def should_move(p, src, dst) -> bool:
    from b_asic.process import OperatorProcess

    if src is dst or not suits(dst, p):
        return False
    if isinstance(p, OperatorProcess):
        return dst._latency == p.operation.latency
    return True


def check_moved(p, src, dst, handle, before, arch):
    """Exactly one process changed place."""
    after = snapshot(arch)["placement"]
    for r in resources(arch):
        a, b = Counter(before["placement"][id(r)]), Counter(after[id(r)])
        gone, new = a - b, b - a
        if r is src:
            ok = sum(gone.values()) == 1 and not new
        elif r is dst:
            ok = sum(new.values()) == 1 and not gone
        else:
            ok = not gone and not new
        if not ok or (r is dst and not isinstance(handle, str) and id(p) not in new):
            raise Violation("move-differs", f"{p} from {src} to {dst}: {r} lost {len(gone)}, got {len(new)}", "move")


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        yield dict(t, g=g)
    if t['g']['odd']:
        yield dict(t, g=dict(t['g'], odd=[]))
    for k, v in (("chain", False), ("register", False), ("limits", None)):
        if t[k] != v:
            yield dict(t, **{k: v})
    for i, a in enumerate(t["acts"]):
        for na in (dict(a, out="ok"), dict(a, name=0), dict(a, assign=False), dict(a, how="left_edge")):
            if na != a:
                yield dict(t, acts=[*t["acts"][:i], na, *t["acts"][i + 1 :]])


SHRINK_LISTS = {"acts", "hist"}
