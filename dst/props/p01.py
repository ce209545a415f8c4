"""P01: a Simulation is its iteration count plus delay state, whatever the call history."""

from __future__ import annotations

from dst import gen
from dst.core import InvalidTrace, Violation
from dst.model import eq

EPISODES = {"quick": 16000, "thorough": 400000}
RULE = (
    "one run = one random SFG (nested SFGs, loops, initial values), 1-2 simulations of it, and a "
    "random history of step/run_for/run_until/run/set_input/clear calls in which input "
    "providers and operations fail; distinct = distinct trace with at least 3 iterations "
    "simulated and one history call besides running"
)
REAL = ["b_asic.simulation.Simulation", "b_asic.sfg.SFG evaluation and copying", "all operations"]
STUB = ["input providers (simulated)", "a user-defined pass-through operation that fails on plan"]
ASSUMPTIONS = [
    "floating-point results are compared to 1e-9 relative",
    "with a data type the reference is a fresh fault-free Simulation stepped one by one",
]
TIME_UNIT = "SFG iterations"
STATE_MEASURE = "hash of (delay state, iteration, operation just done) after each call"


def generate(rng, index, tier):
    cplx = rng.random() < 0.15
    types = gen.COMPLEX if cplx else gen.REAL
    dtype = (not cplx) and rng.random() < 0.12
    if dtype:
        types = ["add", "sub", "cmul", "neg", "mul", "addsub"]
    spec = gen.random_sfg(
        rng, rng.randint(1, 7), types + ["fop"] * (1 + len(types) // 6),
        n_in=rng.randint(1, 3), cplx=cplx, init_prob=0.3,
        nested_prob=0 if dtype else rng.choice([0, 0.2, 0.4]),
    )
    n_in = sum(n["t"] == "in" for n in spec["nodes"])
    length = rng.randint(4, 12)
    n_sim = rng.choice([1, 1, 2])

    def provider():
        r = rng.random()
        if r < 0.2:
            return {"k": "const", "v": rng.randint(-9, 9)}
        if r < 0.5:
            return {"k": "list", "v": [rng.randint(-20, 20) for _ in range(length)]}
        p = {"k": "fun", "a": rng.randint(1, 16), "b": rng.randint(0, 16)}
        if rng.random() < 0.4:
            p["fail"] = [
                [rng.randint(0, 10), rng.choice(["provider-error", "provider-interrupt"])]
                for _ in range(rng.randint(1, 3))
            ]
        if n_sim > 1 and rng.random() < 0.3:
            p["reenter"] = True
        return p

    hist = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        s = rng.randrange(n_sim)
        if r < 0.3:
            h = {"op": "step", "save": rng.random() < 0.8}
        elif r < 0.45:
            h = {"op": "run_for", "n": rng.randint(0, 4), "save": rng.random() < 0.8}
        elif r < 0.6:
            h = {"op": "run_until", "n": rng.randint(0, 12), "save": rng.random() < 0.8}
        elif r < 0.66:
            h = {"op": "run", "save": rng.random() < 0.8}
        elif r < 0.82:
            h = {"op": "set_input", "i": rng.randrange(n_in), "p": provider()}
        elif r < 0.86:
            h = {"op": "bad_input", "i": rng.randrange(n_in), "len": length + rng.choice([-1, 1, 3])}
        elif r < 0.9:
            h = {"op": "clear_state"}
        elif r < 0.94:
            h = {"op": "clear_results"}
        else:
            h = {"op": "mutate", "node": rng.randrange(len(spec["nodes"])), "v": rng.randint(-4, 4)}
        hist.append({"s": s, **h})
    n_fail = rng.choice([0, 1, 2, 3, 4])
    return {
        "spec": spec,
        "dtype": dtype,
        "init": [
            [provider() if rng.random() < 0.8 else None for _ in range(n_in)]
            for _ in range(n_sim)
        ],
        "hist": hist,
        "op_faults": [
            [rng.randint(0, 30), rng.choice(["op-error", "op-error", "op-interrupt"])]
            for _ in range(n_fail)
        ],
    }


class Saturated(Exception):
    """A value left the range in which the arithmetic of both sides is exact."""


class RefModel:
    """The netlist reference."""

    def __init__(self, spec):
        self.nl = gen.spec_netlist(spec)
        self.st = self.nl.initial_state()

    def step(self, inputs):
        v, self.st = self.nl.step(self.st, inputs)
        if any(abs(x) > 1e9 for x in v.values()):
            raise Saturated
        return v

    def clear(self):
        self.st = self.nl.initial_state()

    def state(self):
        return repr(self.st)


class RefSim:
    """A fresh simulation that sees no fault and is only ever stepped by one."""

    def __init__(self, spec, keys, dtype):
        from b_asic.simulation import Simulation

        self.now = None
        sfg = gen.build(spec)
        n_in = len(sfg.input_operations)
        self.sim = Simulation(
            sfg, [(lambda _n, i=i: self.now[i]) for i in range(n_in)], dtype
        )
        self.keys = keys

    def step(self, inputs):
        from dst.faulty import Plan

        saved = Plan.fail_at
        cnt = Plan.count
        Plan.fail_at = {}
        try:
            self.now = inputs
            self.sim.step()
            res = self.sim.results
            out = {np_: res[k][-1] for np_, k in self.keys.items() if k in res}
            self.sim.clear_results()
        finally:
            Plan.fail_at = saved
            Plan.count = cnt
        return out

    def clear(self):
        self.sim.clear_state()

    def state(self):
        return ""


class Live:
    """One simulation under test, next to its model."""

    def __init__(self, w, idx, providers):
        from b_asic.simulation import Simulation

        self.w = w
        self.idx = idx
        self.prov = [p or {"k": "const", "v": 0} for p in providers]
        self.left = [None] * len(providers)
        self.it = 0
        self.busy = False
        live = [None if p is None else self.live(i, p) for i, p in enumerate(providers)]
        if len(providers) == 1 and live[0] is None:
            self.sim = Simulation(w.sfg, None, w.dtype)
        else:
            self.sim = Simulation(w.sfg, live, w.dtype)
        self.has_len = any(p["k"] == "list" for p in self.prov)
        self.length = next((len(p["v"]) for p in self.prov if p["k"] == "list"), None)
        self.ref = (
            RefSim(w.spec, w.keys, w.dtype) if w.dtype else RefModel(w.spec)
        )
        self.saved: dict = {k: [] for k in w.keys}
        self.last_out: list | None = None

    def live(self, i, p):
        if p["k"] == "const":
            return p["v"]
        if p["k"] == "list":
            return list(p["v"])
        fails = {k: kind for k, kind in p.get("fail", [])}
        self.prov[i] = p

        def f(n):
            from dst.faulty import InjectedError, InjectedInterrupt

            self.w.cov.probe("provider-call")
            if p.get("reenter"):
                other = self.w.sims[1 - self.idx]
                if not other.busy and not self.w.nested:
                    self.w.nested = True
                    try:
                        self.w.cov.fault("reentrant-step-of-other-simulation")
                        other.run({"op": "step", "save": True})
                    finally:
                        self.w.nested = False
            kind = fails.pop(n, None)
            if kind is not None:
                self.w.cov.fault(kind)
                self.w.fired += 1
                if kind == "provider-interrupt":
                    raise InjectedInterrupt("injected")
                raise InjectedError("injected")
            return (p["a"] * n + p["b"]) % 17 - 8

        return f

    def value(self, i, n):
        p = self.prov[i]
        if p["k"] == "const":
            return p["v"]
        if p["k"] == "list":
            return p["v"][n] if n < len(p["v"]) else None
        return (p["a"] * n + p["b"]) % 17 - 8

    def run(self, h):
        from dst.faulty import InjectedError, InjectedInterrupt

        w = self.w
        op = h["op"]
        save = h["save"]
        before = self.it
        if op == "step":
            target, call = before + 1, lambda: self.sim.step(save)
        elif op == "run_for":
            target, call = before + h["n"], lambda: self.sim.run_for(h["n"], save)
        elif op == "run_until":
            target, call = h["n"], lambda: self.sim.run_until(h["n"], save)
        else:
            if not self.has_len:
                return
            target, call = self.length, lambda: self.sim.run(save)
        # A list that runs out ends the run where it runs out.
        exhausted = None
        for n in range(before, target):
            if any(self.value(i, n) is None for i in range(len(self.prov))):
                exhausted = n
                break
        self.busy = True
        outs = failed = None
        try:
            outs = call()
        except (InjectedError, InjectedInterrupt) as e:
            failed = type(e).__name__
        except IndexError as e:
            if exhausted is None:
                raise
            failed = "exhausted"
            w.cov.fault("input-list-exhausted")
        except OverflowError:
            raise Saturated from None
        finally:
            self.busy = False
        after = self.sim.iteration
        lo, hi = before, max(before, target)
        if failed == "exhausted":
            if after != exhausted:
                raise Violation("wrong-iteration-count",
                                f"sim stopped at {after}, its input list ends at {exhausted}", op)
        elif failed:
            if not lo <= after < hi:
                raise Violation("wrong-iteration-count",
                                f"after a failure in {op} from {before} to {target}: {after}", op)
        elif after != hi:
            raise Violation("wrong-iteration-count", f"{op}: {before} -> {after}, expected {hi}", op)
        for n in range(before, after):
            vals = self.ref.step([self.value(i, n) for i in range(len(self.prov))])
            self.last_out = [vals.get((o, 0)) for o in w.out_nodes]
            if save:
                for k in w.keys:
                    self.saved[k].append(vals.get(k))
        self.it = after
        w.cov.step(after - before)
        w.cov.sim_time += after - before
        w.iters += after - before
        w.cov.log(op, self.idx, before, after, failed)
        w.cov.state(self.ref.state(), after, op, failed)
        if failed:
            w.cov.probe("failed-iteration")
            w.dirty = True
        if outs is not None and self.last_out is not None and after > 0 and after > before:
            if len(outs) != len(self.last_out) or not all(
                same(a, b) for a, b in zip(outs, self.last_out)
            ):
                raise Violation("wrong-output",
                                f"{op} returned {outs}, expected {self.last_out} (iteration {after})",
                                "returned")
        elif outs is not None and after == before and self.last_out is not None:
            # Nothing to do: the outputs of the last iteration.
            w.cov.probe("empty-run")
            if not all(same(a, b) for a, b in zip(outs, self.last_out, strict=True)):
                raise Violation("wrong-output", f"empty {op} returned {outs}, last {self.last_out}",
                                "empty")
        self.check()

    def check(self):
        res = self.sim.results
        for k, key in self.w.keys.items():
            want = self.saved[k]
            got = list(res[key]) if key in res else []
            if len(got) != len(want):
                raise Violation("wrong-result-length",
                                f"results[{key!r}] has {len(got)} entries, expected {len(want)}",
                                "results")
            for n, (a, b) in enumerate(zip(got, want)):
                if not same(a, b):
                    raise Violation("wrong-result",
                                    f"results[{key!r}][{n}] = {a}, expected {b}", "results")


def same(a, b):
    if hasattr(a, "to_bits") or hasattr(b, "to_bits"):
        return hasattr(a, "to_bits") and hasattr(b, "to_bits") and a.to_bits() == b.to_bits()
    return eq(a, b)


class World:
    pass


def execute(trace, cov):
    try:
        _execute(trace, cov)
    except Saturated:
        cov.probe("saturated")


def _execute(trace, cov):
    from dst.faulty import Plan

    spec = trace["spec"]
    gen.check_spec(spec)
    w = World()
    w.cov, w.spec = cov, spec
    w.fired, w.iters, w.nested, w.dirty = 0, 0, False, False
    w.dtype = None
    if trace["dtype"]:
        from b_asic.data_type import DataType

        w.dtype = DataType((7, 6))
    Plan.reset({int(k): kind for k, kind in trace["op_faults"]}, cov.fault)
    w.sfg = gen.build(spec)
    by_node = gen.ids_by_node(w.sfg, spec)
    w.keys = {}
    w.out_nodes = [i for i, n in enumerate(spec["nodes"]) if n["t"] == "out"]
    for i, n in enumerate(spec["nodes"]):
        if n["t"] == "sink" or i not in by_node:
            continue
        op = w.sfg.find_by_id(by_node[i])
        if n["t"] == "out":
            w.keys[i, 0] = op.graph_id
            continue
        for k in range(op.output_count):
            w.keys[i, k] = op.key(k, op.graph_id)
    n_in = sum(n["t"] == "in" for n in spec["nodes"])
    if any(len(p) != n_in for p in trace["init"]) or not trace["init"]:
        raise InvalidTrace
    w.sims = []
    for i, prov in enumerate(trace["init"]):
        w.sims.append(Live(w, i, prov))
    others = 0
    for h in trace["hist"]:
        if h["s"] >= len(w.sims):
            raise InvalidTrace
        s = w.sims[h["s"]]
        op = h["op"]
        if op in ("step", "run_for", "run_until", "run"):
            s.run(h)
            continue
        others += 1
        cov.log(op, h["s"])
        if op == "set_input":
            if h["i"] >= n_in:
                raise InvalidTrace
            p = h["p"]
            if p["k"] == "list":
                if s.length is not None and len(p["v"]) != s.length:
                    raise InvalidTrace
                s.has_len, s.length = True, len(p["v"])
            s.prov[h["i"]] = p
            s.sim.set_input(h["i"], s.live(h["i"], p))
        elif op == "bad_input":
            if h["i"] >= n_in:
                raise InvalidTrace
            if any(p["k"] == "list" and j != h["i"] for j, p in enumerate(s.prov)) and (
                h["len"] != s.length
            ):
                try:
                    s.sim.set_input(h["i"], [99] * h["len"])
                except ValueError:
                    cov.fault("rejected-input")
                else:
                    raise Violation("accepted-inconsistent-input",
                                    f"{h['len']} samples next to {s.length}", "length")
        elif op == "clear_state":
            s.sim.clear_state()
            s.ref.clear()
        elif op == "clear_results":
            s.sim.clear_results()
            s.saved = {k: [] for k in w.keys}
            s.check()
        elif op == "mutate":
            # The simulation works on its own copy.
            if h["node"] in by_node:
                o = w.sfg.find_by_id(by_node[h["node"]])
                for name in o.params:
                    if name in ("value", "initial_value"):
                        o.set_param(name, h["v"] if not isinstance(o.param(name), tuple) else (h["v"], 1))
                        cov.probe("mutated-original")
                if hasattr(o, "value") and o.type_name() == "in":
                    o.value = 77
    for s in w.sims:
        s.check()
    if w.iters >= 3 and others:
        cov.nontrivial.add(cov.digest()[:16])


def simplify(t):
    for s in gen.simplify_spec(t["spec"]):
        n_in = sum(n["t"] == "in" for n in s["nodes"])
        c = dict(t, spec=s)
        c["init"] = [p[:n_in] for p in t["init"]]
        yield c
    if t["dtype"]:
        yield dict(t, dtype=False)
    for i, h in enumerate(t["hist"]):
        if h.get("n", 0) > 1:
            yield dict(t, hist=t["hist"][:i] + [dict(h, n=h["n"] - 1)] + t["hist"][i + 1 :])


SHRINK_LISTS = {"hist", "op_faults", "init"}
