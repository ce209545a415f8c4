"""P06: extracted memory variables and processes carry exactly the scheduled values."""

from __future__ import annotations

from collections import Counter

from dst import edits, gen, machine, sched
from dst.core import InvalidTrace, Violation

EPISODES = {"quick": 6000, "thorough": 150000}
RULE = (
    "one run = one random timed SFG, its schedule and a random edit history; variables and processes "
    "are extracted during and after it, split by lifetime and into chains, and executed as a memory; "
    "distinct = distinct trace with at least 2 variables of different lifetimes"
)
REAL = ["b_asic.schedule.Schedule extraction", "MemoryVariable, OperatorProcess",
        "ProcessCollection lifetime splits, chains, access counts"]
STUB = ["none"]
ASSUMPTIONS = ["delay initial values are 0", "no operation has an output latency above the period"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of the variables (write time, lifetimes) of each extracted collection"


def generate(rng, index, tier):
    g = sched.random_timed(rng, rng.randint(1, 7), zero=rng.random() < 0.15, sink_prob=0.2)
    acts = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["split", "split", "chain", "chain", "access", "drop", "bad", "types"])
        acts.append({"op": k, "x": rng.randint(0, 9), "y": rng.randint(0, 6)})
    return {
        "g": g,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.randint(0, 7), 0.1),
        "acts": acts,
        "stim": gen.stimuli(rng, sched.n_inputs(g["spec"]), 5),
    }


def port_name(port):
    return port.operation.name, port.index


def contents(coll) -> list:
    """Everything a collection of variables says."""
    from b_asic.process import MemoryInputPort, MemoryOutputPort

    out = []
    for v in coll:
        w = v.write_port
        w = ("mem", w.source_variable.name) if isinstance(w, MemoryOutputPort) else port_name(w)
        reads = {}
        for q, life in v.reads.items():
            if isinstance(q, MemoryInputPort):
                q = "mem", q.destination_variable.name
            else:
                q = port_name(q)
            if q in reads:
                raise Violation("read-twice", f"{v.name} is read by {q} twice", "reads")
            reads[q] = life
        if sorted(v.life_times) != sorted(v.reads.values()):
            raise Violation("lifetimes-differ", f"{v}: {v.life_times}", "lives")
        if sorted(v.read_times) != sorted({v.start_time + x for x in reads.values()}):
            raise Violation("read-times-differ", f"{v}: {v.read_times}", "lives")
        if v.execution_time != max(reads.values()):
            raise Violation("execution-time-differs", f"{v}: {v.execution_time}", "lives")
        out.append((w, v.start_time, reads, v.name))
    return sorted(out, key=repr)


def expected(p) -> dict:
    """(src, port) -> (write cycle, {(dst, port): lifetime})"""
    out: dict = {}
    for (dst, i), e in p.edges.items():
        src, port, _ = e
        w = machine.avail(p, src, port)
        use = p.ops[dst]["s"] + p.ops[dst]["ins"][i] + p.T * machine.eff(p, e)
        out.setdefault((src, port), (w % p.T, {}))[1][dst, i] = use - w
    return out


def reads_of(parts) -> dict:
    """(src, port) -> (start, merged reads) over several collections"""
    out: dict = {}
    for coll in parts:
        for w, start, reads, _ in contents(coll):
            have = out.setdefault(w, (start, {}))
            if have[0] != start:
                raise Violation("parts-start-differently", f"{w}: {have[0]} and {start}", "split")
            for q, life in reads.items():
                if q in have[1]:
                    raise Violation("read-duplicated", f"{w} read by {q} in two parts", "split")
                have[1][q] = life
    return out


def check_vars(p, coll) -> None:
    want, have = expected(p), {}
    for w, start, reads, _ in contents(coll):
        if w in have:
            raise Violation("variable-twice", f"{w}", "vars")
        have[w] = (start, reads)
    compare(want, have, "vars")
    if coll.schedule_time != p.T:
        raise Violation("period-differs", f"{coll.schedule_time}, {p.T}", "vars")


def compare(want, have, key):
    for w in sorted(set(want) | set(have), key=repr):
        if want.get(w) != have.get(w):
            raise Violation("variables-differ", f"{w}: {have.get(w)}, schedule: {want.get(w)}", key)


def run_memory(p, r, coll, ins, ref, cov):
    """Execute with operands found through the variables alone."""
    edges = {}
    for v in coll:
        src, port = port_name(v.write_port)
        for q, life in v.reads.items():
            dst, i = port_name(q)
            use = p.ops[dst]["s"] + p.ops[dst]["ins"][i]
            w = machine.avail(p, src, port)
            n, rest = divmod(life - use + w, p.T)
            if rest or (w - v.start_time) % p.T:
                raise Violation("read-off-time", f"{src} to {dst}: lifetime {life}", "memory")
            edges[dst, i] = (src, port, n - (1 if w > p.T else 0))
    q = machine.Plan()
    q.ops, q.T = p.ops, p.T
    q.edges = edges
    machine.compare(machine.execute(q, r, ins, 5, cov), ref)


def check_ops(p, s):
    ops = s.get_operations()
    have = Counter((v.operation.name, v.start_time, v.execution_time) for v in ops)
    want = Counter((n, o["s"], o["ex"]) for n, o in p.ops.items() if o["t"] not in ("dontcare", "sink"))
    if have != want:
        raise Violation("operations-differ", f"{sorted((have - want) + (want - have))}", "ops")
    types = {o["t"] for n, o in p.ops.items() if o["t"] not in ("dontcare", "sink")}
    groups = ops.split_on_type_name()
    if set(groups) != types:
        raise Violation("types-differ", f"{sorted(groups)}, {sorted(types)}", "ops")
    for t in sorted(types):
        for part in (groups[t], ops.get_by_type_name(t)):
            names = Counter(v.operation.name for v in part)
            want = Counter(n for n, o in p.ops.items() if o["t"] == t)
            if names != want or part.schedule_time != p.T:
                raise Violation("group-differs", f"{t}: {names}, {want}", "ops")
    use: Counter = Counter()
    for n, o in p.ops.items():
        if o["t"] not in ("dontcare", "sink"):
            use.update((o["s"] + k) % p.T for k in range(o["ex"] or 0))
    if use and (ops.total_execution_times() != dict(use)
                or ops.processing_element_bound() != max(use.values())):
        raise Violation("usage-differs", f"{ops.total_execution_times()}, {dict(use)}", "ops")


def check_access(coll, T):
    r: Counter = Counter()
    w: Counter = Counter()
    for _, start, reads, _ in contents(coll):
        w[start % T] += 1
        r.update(x % T for x in {start + x for x in reads.values()})
    for name, have, want in (
        ("read", coll.read_port_accesses(), r), ("write", coll.write_port_accesses(), w),
        ("total", coll.total_port_accesses(), r + w),
    ):
        if have != dict(want):
            raise Violation("accesses-differ", f"{name}: {have}, {dict(want)}", name)
    for name, have, want in (
        ("read", coll.read_ports_bound(), r), ("write", coll.write_ports_bound(), w),
        ("total", coll.total_ports_bound(), r + w),
    ):
        if have != max(want.values(), default=0):
            raise Violation("bound-differs", f"{name}: {have}, {dict(want)}", name)


def follow(coll, T, limit) -> dict:
    """Flatten chains: (src, port) -> (start, {reader: lifetime}), checking the links."""
    from b_asic.process import MemoryInputPort, MemoryOutputPort

    here = list(coll)
    linked = Counter()
    out: dict = {}
    for v in here:
        if v.execution_time > limit:
            raise Violation("chain-too-long", f"{v.name}: {v.execution_time} > {limit}", "chain")
        if isinstance(v.write_port, MemoryOutputPort):
            continue
        reads: dict = {}
        at, base = v, 0
        while at is not None:
            nxt = None
            for q, life in at.reads.items():
                if isinstance(q, MemoryInputPort):
                    d = q.destination_variable
                    if nxt is not None or not any(d is x for x in here):
                        raise Violation("broken-chain", f"{at.name} to {d.name}", "chain")
                    if getattr(d.write_port, "source_variable", None) is not at:
                        raise Violation("broken-chain", f"{d.name} is not written by {at.name}",
                                        "chain")
                    if (at.start_time + life - d.start_time) % T:
                        raise Violation("relay-off-time", f"{at.name} to {d.name}", "chain")
                    linked[id(d)] += 1
                    nxt = d, base + life
                else:
                    if port_name(q) in reads:
                        raise Violation("read-duplicated", f"{v.name} by {port_name(q)}", "chain")
                    reads[port_name(q)] = base + life
            at, base = nxt or (None, 0)
        w = port_name(v.write_port)
        if w in out:
            raise Violation("variable-twice", f"{w}", "chain")
        out[w] = (v.start_time, reads)
    for v in here:
        if isinstance(v.write_port, MemoryOutputPort):
            if linked[id(v)] != 1:
                raise Violation("broken-chain", f"{v.name} has {linked[id(v)]} writers", "chain")
            if port_name(v.root_write_port) not in out:
                raise Violation("broken-chain", f"root of {v.name}", "chain")
    return out


def act(a, coll, p, want, cov):
    from b_asic.process import MemoryVariable
    from b_asic.resources import ProcessCollection

    k = a["op"]
    before = contents(coll)
    if k == "split":
        parts = coll.split_on_length(a["x"])
        for lo, part in ((True, parts[0]), (False, parts[1])):
            for w, start, reads, _ in contents(part):
                if any((life <= a["x"]) != lo for life in reads.values()):
                    raise Violation("wrong-part", f"{w} {reads} at length {a['x']}", "split")
        if any(q.schedule_time != p.T for q in parts):
            raise Violation("period-differs", "after split_on_length", "split")
        again = [*parts[0].split_on_length(a["y"]), *parts[1].split_on_length(a["y"] + 2)]
        for ps in (parts, again):
            compare(want, reads_of(ps), "split")
        for q in (*parts, *again):
            check_access(q, p.T)
    elif k == "chain":
        limit = max(1, a["x"]) if a["x"] else None
        base = coll
        if a["y"] % 2:
            base = coll.split_on_length(0)[1]
        chained = base.split_into_chains(limit)
        flat = follow(chained, p.T, limit or p.T)
        compare(reads_of([base]), flat, "chain")
        if any(not 0 <= v.start_time < p.T for v in chained):
            raise Violation("write-time-outside", ", ".join(
                f"{v.name} at {v.start_time}" for v in chained
            ), "chain")
        cov.probe("chained" if len(chained) > len(base) else "nothing-to-chain")
        if chained.schedule_time != p.T:
            raise Violation("period-differs", "after split_into_chains", "chain")
        check_access_chain(chained, p.T)
    elif k == "access":
        check_access(coll, p.T)
    elif k == "drop":
        own = ProcessCollection(list(coll), p.T)
        if len(own):
            victim = own.collection[a["x"] % len(own)]
            own.remove_process(victim)
            if victim in own or contents(own) != sorted(
                (c for c in before if c[0] != port_name(victim.write_port)), key=repr
            ):
                raise Violation("remove-differs", f"{victim}", "drop")
            own.add_process(victim)
            at = own.find_by_time(victim.start_time)
            if contents(own) != before or contents(at) != sorted(
                (c for c in before if c[1] == victim.start_time), key=repr
            ):
                raise Violation("add-differs", f"{victim}", "drop")
    elif k == "bad":
        own = ProcessCollection(list(coll), p.T)
        if len(own):
            cov.fault("invalid-edit")
            victim = own.collection[a["x"] % len(own)]
            other = MemoryVariable(victim.start_time, victim.write_port, dict(victim.reads))
            for what, f, e in (
                ("add twice", lambda: own.add_process(victim), ValueError),
                ("remove foreign", lambda: own.remove_process(other), KeyError),
                ("find missing", lambda: own.from_name("no such name"), KeyError),
                ("types", own.split_on_type_name, ValueError),
            ):
                try:
                    f()
                except e:
                    pass
                else:
                    raise Violation("invalid-accepted", what, "bad")
                if contents(own) != before:
                    raise Violation("failed-edit-changed", what, "bad")
    if contents(coll) != before:
        raise Violation("original-changed", f"by {k}", k)


def check_access_chain(coll, T):
    r: Counter = Counter()
    w: Counter = Counter()
    for v in coll:
        w[v.start_time % T] += 1
        r.update(x % T for x in {v.start_time + x for x in v.reads.values()})
    if coll.total_port_accesses() != dict(r + w):
        raise Violation("accesses-differ", "of chains", "total")


def execute(trace, cov):
    sched.valid_timing(trace["g"])
    ses = edits.Session(trace, cov)
    if ses.sch is None:
        return
    s = ses.sch
    if s.schedule_time == 0:
        return
    orig = sched.orig_edges(trace["g"]["spec"])
    ins, ref = sched.reference(trace["g"]["spec"], trace["stim"], 5)
    kept = []

    def look():
        p = machine.read(s)
        for o in p.ops.values():
            if max(o["outs"], default=0) > p.T:
                raise InvalidTrace
        try:
            machine.check_times(p)
        except Violation:
            raise InvalidTrace from None  # P02's matter
        coll = s.get_memory_variables()
        check_vars(p, coll)
        check_ops(p, s)
        cov.state((p.T, *[c[1:3] for c in contents(coll)]))
        cov.log(*[c[:2] + (sorted(c[2].items()),) for c in contents(coll)])
        kept.append((coll, contents(coll)))
        return p, coll

    p, coll = look()
    for i, h in enumerate(trace["hist"]):
        try:
            res = ses.apply(h)
        except Violation:
            raise InvalidTrace from None  # P02's and P03's matter
        if res != "ok":
            cov.fault("refused-edit")
        cov.log(h["op"], res)
        if "swap" in h["op"]:
            kept.clear()  # ports are swapped in place, variables name the ports
        if i % 2 or i == len(trace["hist"]) - 1:
            p, coll = look()
    p, coll = look()
    try:
        r = machine.retiming(p, orig, ses.perm)
    except Violation:
        raise InvalidTrace from None  # P02's matter
    run_memory(p, r, coll, ins, ref, cov)
    want = expected(p)
    for a in trace["acts"]:
        act(a, coll, p, want, cov)
        cov.probe(a["op"])
        cov.log(a["op"])
    for c, was in kept:
        if contents(c) != was:
            raise Violation("old-collection-changed", "a schedule edit changed extracted variables",
                            "kept")
    if len({life for _, _, reads, _ in contents(coll) for life in reads.values()}) >= 2:
        cov.nontrivial.add(cov.digest()[:16])


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        yield dict(t, g=g, stim=t["stim"][: sched.n_inputs(g["spec"])])
    f = t["first"]
    for nf in (dict(f, kind="asap"), dict(f, extra=0)):
        if nf != f:
            yield dict(t, first=nf)


SHRINK_LISTS = {"hist", "acts"}
