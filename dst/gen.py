"""Workload generation: random signal-flow graphs as JSON specs, and their construction."""

from __future__ import annotations

import random

from dst.core import InvalidTrace
from dst.model import FUNCS, Netlist

# Default mixes of operation types
LINEAR = ["add", "sub", "addsub", "cmul", "neg", "sym2p", "r2bfly"]
REAL = [
    "add", "add", "sub", "addsub", "shiftaddsub", "cmul", "cmul", "neg", "abs", "min",
    "max", "mul", "mad", "mads", "lshift", "rshift", "shift", "sym2p", "ser2p", "par2p",
    "rfs3p", "ser3p", "r2bfly",
]
COMPLEX = [
    "add", "sub", "addsub", "cmul", "imul", "conj", "mul", "r2bfly", "r2difbfly",
    "r2ditbfly", "r2tfbfly", "r4bfly", "mads", "neg",
]


def params_for(rng: random.Random, t: str, cplx: bool = False) -> dict:
    def num():
        v = rng.choice([-3, -2, -1, 0, 1, 2, 3, 5])
        return v

    if t == "cmul":
        return {"value": num()}
    if t == "c":
        return {"value": num()}
    if t in ("add", "sub"):
        return {"mul_j": cplx and rng.random() < 0.2, "shift_output": rng.choice([0] * 8 + [1])}
    if t == "addsub":
        return {"is_add": rng.random() < 0.5, "mul_j": cplx and rng.random() < 0.2,
                "shift_output": rng.choice([0] * 8 + [1])}
    if t == "shiftaddsub":
        return {"is_add": rng.random() < 0.5, "shift": rng.randint(0, 2),
                "mul_j": False, "shift_output": rng.choice([0] * 8 + [1])}
    if t == "mad":
        return {"do_add": rng.random() < 0.7}
    if t == "mads":
        return {"is_add": rng.random() < 0.5, "do_addsub": rng.random() < 0.7}
    if t in ("lshift", "rshift"):
        return {"value": rng.randint(0, 2)}
    if t == "shift":
        return {"value": rng.randint(-2, 2)}
    if t == "sym2p":
        return {"value": rng.choice([-1, -0.5, 0, 0.25, 0.5, 1])}
    if t in ("ser2p", "par2p"):
        return {"value": rng.choice([0, 0.5, 1, 1.5, 2])}
    if t == "rfs3p":
        return {"value": rng.choice([0, 0.25, 0.5, 1])}
    if t == "ser3p":
        return {"value": rng.choice([[0, 1], [0.5, 0.5], [1, 0.25], [0.5, 1.25]])}
    if t in ("r2difbfly", "r2ditbfly"):
        return {"w": rng.choice([[1, 0], [0, 1], [0, -1], [-1, 0], [0.5, 0.5]])}
    if t == "r2tfbfly":
        return {"w0": rng.choice([[1, 0], [0, 1]]), "w1": rng.choice([[0, -1], [-1, 0]])}
    return {}


def live_params(t: str, p: dict) -> dict:
    """JSON parameters to Python ones."""
    q = dict(p)
    for k in ("w", "w0", "w1"):
        if k in q:
            q[k] = complex(*q[k])
    if t == "ser3p":
        q["value"] = tuple(q["value"])
    return q


def random_sfg(
    rng: random.Random,
    n_ops: int,
    types: list[str],
    n_in: int = 1,
    delay_prob: float = 0.3,
    loop_prob: float = 0.4,
    const_prob: float = 0.1,
    init_prob: float = 0.0,
    nested_prob: float = 0.0,
    dontcare_prob: float = 0.0,
    sink_prob: float = 0.3,
    max_out: int = 3,
    cplx: bool = False,
    max_fanout_out: bool = True,
) -> dict:
    """
    A random spec. Nodes are in a combinational order; delays may close loops.

    {"nodes": [{"t", "a": [[node, port], ...], "p": {...}}, ...]}
    Inputs come first. Every output port ends up read (by an operation, output or sink).
    """
    nodes: list[dict] = []
    ports: list[list[int]] = []

    def emit(t, a, p=None, **kw) -> int:
        nodes.append({"t": t, "a": a, "p": p or {}, **kw})
        i = len(nodes) - 1
        n_out = kw.get("n_out", 1 if t not in FUNCS else FUNCS[t][1])
        if t not in ("out", "sink"):
            ports.extend([i, k] for k in range(n_out))
        return i

    for _ in range(n_in):
        emit("in", [])
    pending: list[int] = []  # delays whose source is chosen last (loops)

    def init():
        return {"initial_value": rng.choice([-2, 1, 3])} if rng.random() < init_prob else {}

    def pick() -> list[int]:
        # Prefer recent ports, to get depth.
        if rng.random() < 0.55:
            return list(rng.choice(ports[-4:]))
        return list(rng.choice(ports))

    def source() -> list[int]:
        r = rng.random()
        if r < delay_prob:
            if rng.random() < loop_prob:
                d = emit("t", [], init())
                pending.append(d)
                return [d, 0]
            s = pick()
            for _ in range(rng.choice([1, 1, 1, 2])):
                d = emit("t", [s], init())
                s = [d, 0]
            return s
        if r < delay_prob + const_prob:
            return [emit("c", [], params_for(rng, "c")), 0]
        if r < delay_prob + const_prob + dontcare_prob:
            pass
        return pick()

    while sum(1 for n in nodes if n["t"] not in ("in", "t", "c")) < n_ops:
        if rng.random() < nested_prob:
            k = rng.randint(1, 2)
            sub = random_sfg(rng, rng.randint(1, 3), types, n_in=k, delay_prob=0.4,
                             loop_prob=0.5, const_prob=0, init_prob=init_prob, max_out=2,
                             cplx=cplx)
            n_out = sum(1 for n in sub["nodes"] if n["t"] == "out")
            emit("sfg", [source() for _ in range(k)], sub=sub, n_out=n_out)
            continue
        t = rng.choice(types)
        a = [source() for _ in range(FUNCS[t][0])]
        emit(t, a, params_for(rng, t, cplx))
    first_op = next(
        i for i, n in enumerate(nodes) if n["t"] not in ("in", "c", "t")
    )
    for d in pending:
        # Close the loop through a later computed port, so there is always an operation.
        later = [p for p in ports if p[0] >= first_op and nodes[p[0]]["t"] not in ("c", "t", "in")]
        nodes[d]["a"] = [list(rng.choice(later))]
    used = {tuple(a) for n in nodes for a in n["a"]}
    dangling = [p for p in ports if tuple(p) not in used]
    outs = 0
    for p in dangling:
        if nodes[p[0]]["t"] in ("c", "t"):
            nodes.append({"t": "sink", "a": [list(p)], "p": {}})
        elif outs < max_out or rng.random() > sink_prob:
            nodes.append({"t": "out", "a": [list(p)], "p": {}})
            outs += 1
        else:
            nodes.append({"t": "sink", "a": [list(p)], "p": {}})
    if outs == 0 or (max_fanout_out and rng.random() < 0.2 and outs < max_out):
        cand = [p for p in ports if nodes[p[0]]["t"] not in ("c", "t", "in")]
        have = {tuple(n["a"][0]) for n in nodes if n["t"] == "out"}
        cand = [p for p in cand if tuple(p) not in have]
        if cand:
            nodes.append({"t": "out", "a": [list(rng.choice(cand))], "p": {}})
    return {"nodes": nodes}


def node_name(i: int) -> str:
    return f"n{i}"


def make_op(t: str, p: dict, name: str):
    """Construct one b_asic operation through the public constructors."""
    import b_asic as b
    from b_asic import core_operations as c
    from b_asic import fft_operations as f
    from b_asic import utility_operations as u
    from b_asic import wdf_operations as w

    from dst import faulty

    p = live_params(t, p)
    cls = {
        "fop": faulty.FaultyOp,
        "in": b.Input, "out": b.Output, "t": b.Delay, "c": c.Constant, "neg": c.Negation,
        "add": c.Addition, "sub": c.Subtraction, "addsub": c.AddSub,
        "shiftaddsub": c.ShiftAddSub, "mul": c.Multiplication, "div": c.Division,
        "cmul": c.ConstantMultiplication, "imul": c.ImaginaryMultiplication,
        "conj": c.ComplexConjugate, "abs": c.Absolute, "min": c.Min, "max": c.Max,
        "mad": c.MAD, "mads": c.MADS, "rshift": c.RightShift, "lshift": c.LeftShift,
        "shift": c.Shift, "rec": c.Reciprocal, "sym2p": w.SymmetricTwoportAdaptor,
        "ser2p": w.SeriesTwoportAdaptor, "par2p": w.ParallelTwoportAdaptor,
        "rfs3p": w.ReflectionFreeSeriesThreeportAdaptor,
        "ser3p": w.SeriesThreeportAdaptor,
        "r2bfly": f.R2Butterfly, "r2difbfly": f.R2DIFButterfly,
        "r2ditbfly": f.R2DITButterfly, "r2tfbfly": f.R2TFButterfly,
        "r4bfly": f.R4Butterfly, "sink": u.Sink, "dontcare": u.DontCare,
    }[t]
    return cls(name=name, **p)


def check_spec(spec: dict) -> None:
    """Reject what the shrinker may produce but no user would build."""
    nodes = spec.get("nodes", [])
    if not any(n["t"] == "out" for n in nodes) or not any(n["t"] == "in" for n in nodes):
        raise InvalidTrace
    for n in nodes:
        t = n["t"]
        want = {"in": 0, "c": 0, "t": 1, "out": 1, "sink": 1, "dontcare": 0}.get(t)
        if want is None:
            want = sum(1 for m in n["sub"]["nodes"] if m["t"] == "in") if t == "sfg" else FUNCS[t][0]
        if len(n["a"]) != want:
            raise InvalidTrace
        for a in n["a"]:
            if len(a) != 2 or a[0] is None or not 0 <= a[0] < len(nodes):
                raise InvalidTrace
            s = nodes[a[0]]
            if s["t"] in ("out", "sink"):
                raise InvalidTrace
            n_out = (s["n_out"] if s["t"] == "sfg" else FUNCS[s["t"]][1] if s["t"] in FUNCS else 1)
            if not 0 <= a[1] < n_out:
                raise InvalidTrace
        if t == "sfg":
            check_spec(n["sub"])
    # No combinational loop, no loop made of delays only, every port read.
    nl = spec_netlist(spec)
    try:
        nl.order()
    except ValueError as e:
        raise InvalidTrace from e
    used = {tuple(a) for n in nodes for a in n["a"]}
    for i, n in enumerate(nodes):
        if n["t"] in ("out", "sink"):
            continue
        n_out = n["n_out"] if n["t"] == "sfg" else FUNCS[n["t"]][1] if n["t"] in FUNCS else 1
        for k in range(n_out):
            if (i, k) not in used:
                raise InvalidTrace
    for i, n in enumerate(nodes):
        s, hops = i, 0
        while nodes[s]["t"] == "t":
            s = nodes[s]["a"][0][0]
            hops += 1
            if hops > len(nodes):
                raise InvalidTrace


def build(spec: dict, name: str = ""):
    """The b_asic SFG of a spec. Node i has the name ``n<i>``."""
    import b_asic as b

    nodes = spec["nodes"]
    ops = []
    for i, n in enumerate(nodes):
        if n["t"] == "sfg":
            ops.append(build(n["sub"], name=node_name(i)))
        else:
            ops.append(make_op(n["t"], n["p"], node_name(i)))
    for i, n in enumerate(nodes):
        for k, (s, p) in enumerate(n["a"]):
            ops[i].input(k).connect(ops[s].output(p))
    return b.SFG(
        inputs=[ops[i] for i, n in enumerate(nodes) if n["t"] == "in"],
        outputs=[ops[i] for i, n in enumerate(nodes) if n["t"] == "out"],
        name=name,
    )


def spec_netlist(spec: dict) -> Netlist:
    """The reference netlist of a spec (ids are node indices)."""
    nl = Netlist()
    for i, n in enumerate(spec["nodes"]):
        nl.add(i, n["t"], live_params(n["t"], n["p"]), [tuple(a) for a in n["a"]])
        if n["t"] == "sfg":
            nl.nodes[i]["sub"] = spec_netlist(n["sub"])
    nl.inputs = [i for i, n in enumerate(spec["nodes"]) if n["t"] == "in"]
    nl.outputs = [i for i, n in enumerate(spec["nodes"]) if n["t"] == "out"]
    return nl


def ids_by_node(sfg, spec: dict) -> dict[int, str]:
    """node index -> graph id in *sfg*."""
    out = {}
    for op in sfg.operations:
        nm = op.name
        if nm.startswith("n") and nm[1:].isdigit():
            out[int(nm[1:])] = op.graph_id
    return out


def drop_node(spec: dict, i: int) -> dict | None:
    """Shrink: remove node i, rewiring its readers to its first source (if it has one)."""
    nodes = spec["nodes"]
    n = nodes[i]
    if n["t"] == "in" and sum(1 for m in nodes if m["t"] == "in") == 1:
        return None
    if n["t"] in ("out", "sink"):
        repl = None
    elif n["a"]:
        repl = n["a"][0]
        if repl[0] == i:
            return None
    else:
        repl = [0, 0] if i else None
        if repl is None or nodes[0]["t"] != "in":
            return None
    new = []
    for j, m in enumerate(nodes):
        if j == i:
            continue
        m = dict(m)
        a = []
        for s, p in m["a"]:
            if s == i:
                if repl is None:
                    return None
                s, p = repl
            if s == i:
                return None
            a.append([s - (s > i), p])
        m["a"] = a
        new.append(m)
    # Give dangling ports a sink-free shape: drop sinks of ports that vanished is automatic;
    # newly dangling ports get a sink.
    used = {tuple(a) for m in new for a in m["a"]}
    extra = []
    for j, m in enumerate(new):
        if m["t"] in ("out", "sink"):
            continue
        n_out = m["n_out"] if m["t"] == "sfg" else FUNCS[m["t"]][1] if m["t"] in FUNCS else 1
        for k in range(n_out):
            if (j, k) not in used:
                extra.append({"t": "sink", "a": [[j, k]], "p": {}})
    return {"nodes": new + extra}


def simplify_spec(spec: dict):
    """Candidate smaller specs."""
    for i in reversed(range(len(spec["nodes"]))):
        s = drop_node(spec, i)
        if s is not None and len(s["nodes"]) < len(spec["nodes"]):
            yield s


def stimuli(rng: random.Random, n_in: int, length: int, cplx: bool = False) -> list[list]:
    """Distinct-looking small integers, so a swapped or stale value shows."""
    out = []
    for _ in range(n_in):
        if cplx:
            out.append([[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(length)])
        else:
            out.append([rng.randint(-20, 20) for _ in range(length)])
    return out


def live_stimuli(stim: list[list]) -> list[list]:
    return [[complex(*v) if isinstance(v, list) else v for v in x] for x in stim]
