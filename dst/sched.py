"""Workload shared by the schedule properties: timed graphs and how to schedule them."""

from __future__ import annotations

from dst import gen, machine
from dst.core import InvalidTrace
from dst.model import FUNCS

TYPES = ["add", "add", "sub", "addsub", "cmul", "cmul", "cmul", "neg", "sym2p", "r2bfly", "mul",
         "mad", "mads", "shiftaddsub", "ser2p", "rfs3p"]
CTYPES = ["add", "add", "add", "sub", "addsub", "cmul", "imul", "r2bfly", "r2ditbfly", "mads"]


def timing(rng, spec, zero=False) -> dict:
    """type -> {"lat": {"in0": .., "out0": ..}, "ex": ..}"""
    out = {}
    for n in spec["nodes"]:
        t = n["t"]
        if t in FUNCS and t != "c" and t not in out:
            n_in, n_out, _ = FUNCS[t]
            if rng.random() < 0.65:
                lat = rng.choice([0, 1, 2, 3] if zero else [1, 1, 2, 2, 3, 4])
                offs = {f"in{i}": 0 for i in range(n_in)}
                offs |= {f"out{i}": lat for i in range(n_out)}
            else:
                offs = {f"in{i}": rng.choice([0, 0, 1, 2]) for i in range(n_in)}
                top = max(offs.values(), default=0)
                offs |= {
                    f"out{i}": top + rng.randint(0 if zero else 1, 3) for i in range(n_out)
                }
            span = max(offs.values()) - min(offs.values())
            out[t] = {"lat": offs, "ex": rng.choice([1, 1, 1, 2, max(1, span)])}
    return out


def random_timed(rng, n_ops, zero=False, types=TYPES, **kw) -> dict:
    args = {"n_in": rng.randint(1, 2), "delay_prob": 0.25, "loop_prob": 0.5, "const_prob": 0.05}
    args.update(kw)
    while True:
        spec = gen.random_sfg(rng, n_ops, types, **args)
        try:
            check_graph(spec)
        except InvalidTrace:
            continue
        return {"spec": spec, "timing": timing(rng, spec, zero)}


def check_graph(spec) -> None:
    """
    What the schedule properties are about: every operation is connected to the rest, and no
    constant is delayed (its first samples would differ from the constant).
    """
    gen.check_spec(spec)
    nodes = spec["nodes"]
    adj = {i: set() for i in range(len(nodes))}
    for i, n in enumerate(nodes):
        for s, _ in n["a"]:
            adj[i].add(s)
            adj[s].add(i)
        if n["t"] == "t":
            s = n["a"][0][0]
            if nodes[s]["t"] == "c":
                raise InvalidTrace
            if nodes[s]["t"] == "t" and nodes[nodes[s]["a"][0][0]]["t"] == "c":
                raise InvalidTrace
    seen = set()
    stack = [i for i, n in enumerate(nodes) if n["t"] in ("in", "out")]
    while stack:
        i = stack.pop()
        if i not in seen:
            seen.add(i)
            stack += adj[i]
    if len(seen) != len(nodes):
        raise InvalidTrace


def build(g):
    """The SFG with its timing set."""
    check_graph(g["spec"])
    sfg = gen.build(g["spec"])
    apply_timing(sfg, g)
    return sfg


def apply_timing(sfg, g):
    present = {n["t"] for n in g["spec"]["nodes"]}
    for t, tm in g["timing"].items():
        if t in present:
            sfg.set_latency_offsets_of_type_name(t, dict(tm["lat"]))
            sfg.set_execution_time_of_type_name(t, tm["ex"])
    # Some operations may be slower than the others of their type
    for i, extra in g.get("odd", []):
        for op in sfg.find_by_name(gen.node_name(i)) if i < len(g["spec"]["nodes"]) else []:
            if g["spec"]["nodes"][i]["t"] in FUNCS and None not in op.latency_offsets.values() and op.input_count:
                offs = {f"in{k}": q.latency_offset for k, q in enumerate(op.inputs)}
                offs |= {f"out{k}": q.latency_offset + extra for k, q in enumerate(op.outputs)}
                op.set_latency_offsets(offs)
    return sfg


def orig_edges(spec) -> dict:
    return machine.named_edges(gen.spec_netlist(spec), gen.node_name)


def reference(spec, stim: list[list], n: int) -> tuple[dict, dict]:
    """(inputs by name, reference outputs by name)"""
    nl = gen.spec_netlist(spec)
    try:
        outs = nl.run(stim, n)
    except OverflowError:
        raise InvalidTrace from None
    ins = {gen.node_name(i): s for i, s in zip(nl.inputs, stim, strict=True)}
    return ins, {gen.node_name(o): v for o, v in zip(nl.outputs, outs, strict=True)}


def n_inputs(spec) -> int:
    return sum(n["t"] == "in" for n in spec["nodes"])


def simplify_graph(g):
    for s in gen.simplify_spec(g["spec"]):
        yield dict(g, spec=s)
    for t, tm in g["timing"].items():
        if tm["ex"] > 1:
            yield dict(g, timing=dict(g["timing"], **{t: dict(tm, ex=1)}))
        for k, v in tm["lat"].items():
            if v > (1 if k.startswith("out") else 0):
                yield dict(
                    g, timing=dict(g["timing"], **{t: dict(tm, lat=dict(tm["lat"], **{k: v - 1}))})
                )


def valid_timing(g):
    for tm in g["timing"].values():
        ins = [v for k, v in tm["lat"].items() if k.startswith("in")]
        outs = [v for k, v in tm["lat"].items() if k.startswith("out")]
        if outs and ins and min(outs) < max(ins):
            raise InvalidTrace
