"""P15: transforming a graph never harms the original nor changes what it computes."""

from __future__ import annotations

import copy
import random

from dst import gen, interrupt, sched
from dst.core import InvalidTrace, Violation, hash_key
from dst.model import FUNCS, Netlist, netlist_of

EPISODES = {"quick": 5000, "thorough": 100000}
RULE = (
    "one run = one random graph and a history of random transformations, some of which must be refused and "
    "some of which are interrupted at a random line; distinct = distinct trace with at least 2 "
    "accepted transformations"
)
REAL = ["b_asic.sfg.SFG transformations", "operation rewriting and conversion"]
STUB = ["the interrupt: raised by a trace function at a chosen line of the library"]
ASSUMPTIONS = ["operations keep their documented functions (P01)"]
TIME_UNIT = "samples"
STATE_MEASURE = "hash of the graph (operations, parameters, wiring) after each transformation"

N = 6  # samples
OPS = ["replace", "replace", "insert_after", "insert_after", "insert_before", "insert_before", "remove", "remove",
       "simplify", "unfold", "flatten", "expand", "swap", "copy", "rewrite", "join", "extract", "insert_signal",
       "nest", "bad", "analyse", "to_sfg"]
UNARY = ["cmul", "neg", "t", "lshift", "rshift", "fop"]
BINARY = ["sym2p", "r2bfly", "par2p"]


def generate(rng, index, tier):
    cplx = rng.random() < 0.25
    types = gen.COMPLEX if cplx else gen.REAL
    if rng.random() < 0.3:
        types = [*types, "imul", "add", "sub", "addsub"] if cplx else ["cmul", "add", "sub", "addsub", "cmul"]
    joins = cplx and rng.random() < 0.3
    if joins:
        types = ["imul", "imul", "add", "sub", "addsub", "shiftaddsub"]
    spec = gen.random_sfg(rng, rng.randint(1, 7), types, n_in=rng.randint(1, 3), init_prob=0.4,
                          nested_prob=rng.choice([0, 0, 0.2]), cplx=cplx)
    for n in spec["nodes"]:
        if n["t"] == "cmul" and rng.random() < 0.5:
            n["p"]["value"] = rng.choice([6, 7, -8, 0.375, -0.625, 1, -1, 0, 23, 0.5])
    if joins:
        joinable(rng, spec["nodes"])
    t = {
        "g": {"spec": spec, "timing": sched.timing(rng, spec, True) if rng.random() < 0.5 else {}},
        "cplx": cplx,
        "stim": gen.stimuli(rng, sum(n["t"] == "in" for n in spec["nodes"]), N * 4, cplx),
        "acts": [],
    }
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["join", "join", "copy"] if joins else OPS)
        t["acts"].append({"op": k, "a": rng.randrange(10**6), "b": rng.randrange(10**6), "p": rng.randrange(4),
                          "t": rng.choice(UNARY if rng.random() < 0.7 else BINARY),
                          "how": rng.choice(["id", "id", "dot", "name", "port"]),
                          "cut": rng.random().__round__(4) if rng.random() < 0.25 else None})
    return t


JOINS = ("add", "sub", "addsub", "shiftaddsub")


def joinable(rng, nodes):
    """Let some multiplication by j feed the second input of an adder and nothing else."""
    pairs = [(m, n) for m, a in enumerate(nodes) if a["t"] == "imul"
             for n, b in enumerate(nodes) if n > m and b["t"] in JOINS]
    if not pairs:
        return
    m, n = rng.choice(pairs)
    src = nodes[m]["a"][0]
    if src[0] == m:
        return
    for d in nodes:
        d["a"] = [list(src) if s[0] == m else s for s in d["a"]]
    nodes[m]["a"] = [list(src)]
    nodes[n]["a"][1] = [m, 0]


# --------------------------------------------------------------------------------------
def full(sfg):
    """Everything there is to see of a graph."""
    out = []
    for op in sfg.operations:
        out.append((
            op.graph_id, type(op).__name__, op.name, tuple(sorted((k, repr(v)) for k, v in op.params.items())),
            tuple(q.latency_offset for q in op.inputs), tuple(q.latency_offset for q in op.outputs),
            op.execution_time,
            tuple(tuple((s.graph_id, s.name, s.bits, s.source and (s.source.operation.graph_id, s.source.index))
                        for s in q.signals) for q in op.inputs),
            tuple(tuple((s.graph_id, s.destination and (s.destination.operation.graph_id, s.destination.index))
                        for s in q.signals) for q in op.outputs),
            full(op) if op.type_name() == "sfg" else None,
        ))
    return (sfg.name, tuple(out), tuple(o.graph_id for o in sfg.input_operations),
            tuple(o.graph_id for o in sfg.output_operations), tuple(q.latency_offset for q in sfg.inputs))


def clone(nl: Netlist) -> Netlist:
    c = Netlist()
    for k, d in nl.nodes.items():
        c.nodes[k] = {"t": d["t"], "p": copy.deepcopy(d["p"]), "src": list(d["src"])}
        if "sub" in d:
            c.nodes[k]["sub"] = clone(d["sub"])
    c.inputs, c.outputs = list(nl.inputs), list(nl.outputs)
    return c


def flat(nl: Netlist) -> Netlist:
    """The same without nesting."""
    if not any(d["t"] == "sfg" for d in nl.nodes.values()):
        return nl
    out, alias = Netlist(), {}
    for k, d in nl.nodes.items():
        if d["t"] != "sfg":
            out.nodes[k] = {"t": d["t"], "p": d["p"], "src": list(d["src"])}
            continue
        sub = flat(d["sub"])
        for i, x in enumerate(sub.inputs):
            alias[f"{k}/{x}", 0] = d["src"][i]
        for i, x in enumerate(sub.outputs):
            s, q = sub.nodes[x]["src"][0]
            alias[k, i] = (f"{k}/{s}", q)
        for x, e in sub.nodes.items():
            if e["t"] not in ("in", "out"):
                out.nodes[f"{k}/{x}"] = {"t": e["t"], "p": e["p"], "src": [(f"{k}/{s}", q) for s, q in e["src"]]}
    for d in out.nodes.values():
        for j, s in enumerate(d["src"]):
            hops = 0
            while tuple(s) in alias:
                s = alias[tuple(s)]
                hops += 1
                if hops > len(alias):
                    raise ValueError("delay-free loop")
            d["src"][j] = s
    out.inputs, out.outputs = nl.inputs, nl.outputs
    return out


def behave(nl: Netlist, stim):
    """Output streams (cut where numbers grow out of hand); "loop" if it cannot be computed."""
    out: list[list] = [[] for _ in nl.outputs]
    try:
        nl = flat(nl)
        nl.order()
    except ValueError:
        return "loop"
    st = nl.initial_state()
    for k in range(len(stim[0]) if stim else N):
        try:
            v, st = nl.step(st, [x[k] for x in stim])
            if any(not abs(x) < 1e7 for x in v.values()):
                break
        except (ArithmeticError, TypeError):
            break
        for o, nid in enumerate(nl.outputs):
            out[o].append(v[nid, 0])
    return out


def close(a, b):
    """Equal but for rounding: values stay below 1e7, but transformations may reorder sums."""
    return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def n_ports(d):
    if d["t"] == "sfg":
        return len(d["sub"].inputs), len(d["sub"].outputs)
    if d["t"] in FUNCS:
        return FUNCS[d["t"]][:2]
    return {"in": (0, 1), "out": (1, 0), "t": (1, 1), "sink": (1, 0), "dontcare": (0, 1)}[d["t"]]


def new_part(h, cplx):
    """(type, params) of a new operation."""
    rng = random.Random(h["b"])
    t = h["t"]
    if t == "t":
        return t, {"initial_value": rng.choice([0, 0, 2, -1])}
    return t, gen.params_for(rng, t, False)


class Run:
    def __init__(self, t, cov):
        self.t, self.cov = t, cov
        spec = t["g"]["spec"]
        gen.check_spec(spec)
        sched.valid_timing(t["g"])
        self.sfg = gen.build(spec, "top")
        sched.apply_timing(self.sfg, dict(t["g"]))
        self.stim = gen.live_stimuli(t["stim"])
        self.fresh = 0
        self.done = 0

    def ids(self, pred=lambda d: True):
        return sorted(k for k, d in self.nl.nodes.items() if pred(d))

    def choose(self, xs, n):
        return xs[n % len(xs)] if xs else None

    def act(self, h):
        """Apply one transformation, compare with what it must do."""
        self.nl = netlist_of(self.sfg)
        before = full(self.sfg)
        plan = getattr(self, "do_" + h["op"])(h)
        if plan is None:
            return "skip"
        call, want, refuse = plan
        if isinstance(want, Netlist) and behave(want, self.stim) == "loop":
            return "loop"
        kind = h["op"]
        if h["cut"] is not None and refuse is None:
            self.interrupted(h, call, before)
        try:
            got = call()
        except Exception as e:
            if refuse is not None and isinstance(e, refuse):
                self.cov.fault("refused-transformation")
                self.same(before, f"refused {kind}")
                return "refused"
            if not isinstance(e, Exception):
                raise
            raise Violation("transformation-failed", f"{kind} {self.what}: {type(e).__name__}: {str(e)[:200]}",
                            f"{kind}:{type(e).__name__}") from None
        if refuse is not None and want is None:
            raise Violation("impossible-accepted", f"{kind} {self.what} returned {type(got).__name__}", kind)
        self.same(before, kind)
        if got is None:
            return "none"
        self.judge(kind, got, want)
        self.sfg = got
        self.done += 1
        return "ok"

    def interrupted(self, h, call, before):
        try:
            _, n = interrupt.run(call)
        except Exception:
            return  # reported by the run without an interrupt
        self.same(before, h["op"])
        if n < 2:
            return
        at = int(h["cut"] * (n - 1))
        try:
            interrupt.run(call, at)
        except interrupt.InjectedInterrupt:
            self.cov.fault("interrupt")
        except Exception as e:
            raise Violation("interrupt-lost", f"{h['op']} {self.what}: {type(e).__name__}: {e}",
                            h["op"]) from None
        self.same(before, f"interrupted {h['op']}")

    def same(self, before, what):
        after = full(self.sfg)
        if after != before:
            d = [(a, b) for a, b in zip(before[1], after[1], strict=False) if a != b][:1] or [
                (before[2:], after[2:], len(before[1]), len(after[1]))]
            raise Violation("original-changed", f"{what} {self.what}: {d}"[:700], what)

    def judge(self, kind, got, want):
        """Same function as *want* (a netlist, or a function of the output streams of the old one)."""
        for op in got.operations:
            for q in op.inputs:
                if len(q.signals) != 1 or q.signals[0].source is None:
                    raise Violation("broken-graph", f"{kind} {self.what}: {op.graph_id} has an unconnected input",
                                    f"{kind}:input")
                if got.find_by_id(q.signals[0].source.operation.graph_id) is not q.signals[0].source.operation:
                    raise Violation("broken-graph", f"{kind} {self.what}: {op.graph_id} reads an operation that "
                                    "is not in the graph", f"{kind}:foreign")
                if q.signals[0] not in q.signals[0].source.signals:
                    raise Violation("broken-graph", f"{kind} {self.what}: {op.graph_id} half connected",
                                    f"{kind}:half")
            for q in op.outputs:
                for s in q.signals:
                    if s.destination is None or s not in s.destination.signals:
                        raise Violation("broken-graph", f"{kind} {self.what}: {op.graph_id} drives nothing",
                                        f"{kind}:output")
        ids = [op.graph_id for op in got.operations]
        if len(set(ids)) != len(ids):
            raise Violation("broken-graph", f"{kind} {self.what}: two operations have the same id", f"{kind}:ids")
        new = netlist_of(got)
        self.cov.state(sorted(map(str, ((k, d["t"], d["p"], d["src"]) for k, d in new.nodes.items()))))
        self.cov.log(kind, self.what, len(ids))
        if isinstance(want, Netlist):
            a, b = behave(want, self.stim), behave(new, self.stim)
            self.compare(kind, a, b)
            have = [sig(op) for op in got.operations]
            for k in self.keep:
                p = sig(self.sfg.find_by_id(k))
                if p not in have:
                    raise Violation("operation-changed", f"{kind} {self.what}: {k} was {p}, is gone", kind)
                have.remove(p)
        else:
            want(new)
        self.cov.sim_time += N

    def compare(self, kind, a, b):
        if a == "loop":
            raise InvalidTrace
        if b == "loop" or len(a) != len(b) or not all(
            close(x, y) for p, q in zip(a, b, strict=True) for x, y in zip(p, q, strict=False)
        ):
            raise Violation("function-changed", f"{kind} {self.what}: {str(a)[:160]} became {str(b)[:160]}",
                            f"{kind}")

    # ---- the transformations: (call, expected netlist or check, exception type if to be refused)
    def base(self, what, changed=()):
        self.what = what
        self.keep = [k for k in self.nl.nodes if k not in changed]
        return clone(self.nl)

    def do_copy(self, h):
        want = self.base("")
        return (lambda: self.sfg()), want, None

    def do_analyse(self, h):
        want = self.base(h["a"] % 5)
        s = self.sfg
        f = [lambda: s.get_precedence_list(), lambda: s.get_operations_topological_order(), lambda: s.sfg_digraph(),
             lambda: s.operation_counter(), lambda: str(s)][h["a"] % 5]

        def call():
            f()
            return s()

        return call, want, None

    def do_to_sfg(self, h):
        """An operation as a graph computes the same."""
        g = self.choose(self.ids(lambda d: d["t"] in FUNCS and d["t"] != "c"), h["a"])
        if g is None:
            return None
        d = self.nl.nodes[g]
        want = Netlist()
        n_in, n_out = n_ports(d)
        for i in range(n_in):
            want.add(f"i{i}", "in", {}, [])
        want.add("x", d["t"], d["p"], [(f"i{i}", 0) for i in range(n_in)])
        for i in range(n_out):
            want.add(f"o{i}", "out", {}, [("x", i)])
        want.inputs = [f"i{i}" for i in range(n_in)]
        want.outputs = [f"o{i}" for i in range(n_out)]
        self.base(d["t"])

        def check(new):
            stim = [[(x + 3 * k) for x in self.stim[0]] for k in range(n_in)]
            self.compare("to_sfg", behave(want, stim), behave(new, stim))

        def call():
            self.got_sub = self.sfg.find_by_id(g).to_sfg()
            return self.got_sub

        try:
            sub = call()
        except Exception as e:
            raise Violation("transformation-failed", f"to_sfg {d['t']}: {type(e).__name__}: {e}",
                            f"to_sfg:{d['t']}") from None
        check(netlist_of(sub))
        return None

    def do_replace(self, h):
        g = self.choose(self.ids(lambda d: d["t"] not in ("in", "out", "sink")), h["a"])
        if g is None:
            return None
        n_in, n_out = n_ports(self.nl.nodes[g])
        rng = random.Random(h["b"])
        cand = [t for t, (i, o, _) in FUNCS.items() if (i, o) == (n_in, n_out) and (t in gen.REAL or t in gen.COMPLEX)]
        if n_in == n_out == 1:
            cand.append("t")
        if n_in == 0:
            cand = ["c"]
        if not cand:
            return None
        t = self.choose(sorted(cand), h["b"])
        if self.t["cplx"] and t in ("abs", "min", "max", "mad", "lshift", "rshift", "shift", "shiftaddsub"):
            return None
        p = {"initial_value": rng.choice([0, 3])} if t == "t" else gen.params_for(rng, t, False)
        want = self.base(f"{g} by {t}", (g,))
        want.nodes[g] = {"t": t, "p": gen.live_params(t, p), "src": want.nodes[g]["src"]}
        if loops(want):
            return None
        return (lambda: self.sfg.replace(g, gen.make_op(t, p, "new"))), want, None

    def insertion(self, want, t, p):
        self.fresh += 1
        k = f"new{self.fresh}"
        want.nodes[k] = {"t": t, "p": gen.live_params(t, p), "src": []}
        return k

    def do_insert_after(self, h):
        t, p = new_part(h, self.t["cplx"])
        n_in, n_out = n_ports({"t": t})
        g = self.choose(self.ids(lambda d: n_ports(d)[1] > 0), h["a"])
        m = n_ports(self.nl.nodes[g])[1]
        port = h["p"] % m
        how = h["how"]
        want = self.base(f"{t} after {g} ({how} {port})")
        if n_in == 1 and how in ("dot", "port"):
            k = self.insertion(want, t, p)
            self.redirect(want, (g, port), (k, 0))
            want.nodes[k]["src"] = [(g, port)]
            if how == "dot":
                call = lambda: self.sfg.insert_operation_after(f"{g}.{port}", gen.make_op(t, p, ""))  # noqa: E731
            else:
                call = lambda: self.sfg.insert_operation_after(g, gen.make_op(t, p, ""), port)  # noqa: E731
            return call, want, None
        name = g
        if how == "name":
            name = self.sfg.find_by_id(g).name
            if not name or len(self.sfg.find_by_name(name)) != 1 or "." in name:
                name = g
            if self.sfg.find_by_id(name) is not None and name != g:
                return None
        if len(self.sfg.find_by_name(name)) and how != "name":
            return None  # a name that looks like an id
        if n_in == 1:
            for j in range(m):
                k = self.insertion(want, t, p)
                self.redirect(want, (g, j), (k, 0))
                want.nodes[k]["src"] = [(g, j)]
        else:
            if m != n_in:
                return (lambda: self.sfg.insert_operation_after(name, gen.make_op(t, p, ""))), None, TypeError
            k = self.insertion(want, t, p)
            for j in range(m):
                self.redirect(want, (g, j), (k, j), skip=k)
            want.nodes[k]["src"] = [(g, j) for j in range(m)]
        return (lambda: self.sfg.insert_operation_after(name, gen.make_op(t, p, ""))), want, None

    def redirect(self, nl, old, new, skip=None):
        for k, d in nl.nodes.items():
            if k != skip:
                d["src"] = [new if tuple(s) == old else s for s in d["src"]]

    def do_insert_before(self, h):
        t, p = new_part(h, self.t["cplx"])
        n_in, _ = n_ports({"t": t})
        g = self.choose(self.ids(lambda d: n_ports(d)[0] > 0), h["a"])
        m = n_ports(self.nl.nodes[g])[0]
        port = h["p"] % m
        how = h["how"]
        want = self.base(f"{t} before {g} ({how} {port})")
        src = want.nodes[g]["src"]
        if n_in == 1 and how in ("dot", "port"):
            k = self.insertion(want, t, p)
            want.nodes[k]["src"] = [src[port]]
            src[port] = (k, 0)
            if how == "dot":
                return (lambda: self.sfg.insert_operation_before(f"{g}.{port}", gen.make_op(t, p, ""))), want, None
            return (lambda: self.sfg.insert_operation_before(g, gen.make_op(t, p, ""), port)), want, None
        if len(self.sfg.find_by_name(g)):
            return None
        if n_in == 1:
            for j in range(m):
                k = self.insertion(want, t, p)
                want.nodes[k]["src"] = [src[j]]
                src[j] = (k, 0)
        else:
            if m != n_in:
                return (lambda: self.sfg.insert_operation_before(g, gen.make_op(t, p, ""))), None, TypeError
            k = self.insertion(want, t, p)
            want.nodes[k]["src"] = list(src)
            want.nodes[g]["src"] = [(k, j) for j in range(m)]
        return (lambda: self.sfg.insert_operation_before(g, gen.make_op(t, p, ""))), want, None

    def do_insert_signal(self, h):
        t, p = new_part(h, self.t["cplx"])
        n_in, _ = n_ports({"t": t})
        edges = sorted((k, j) for k, d in self.nl.nodes.items() for j in range(len(d["src"])))
        g, j = self.choose(edges, h["a"])
        sid = self.sfg.find_by_id(g).input(j).signals[0].graph_id
        if len(self.sfg.find_by_name(sid)):
            return None
        want = self.base(f"{t} on {sid} into {g}.{j}")
        f = self.sfg.insert_operation_after if h["b"] % 2 else self.sfg.insert_operation_before
        if n_in != 1:
            return (lambda: f(sid, gen.make_op(t, p, ""))), None, TypeError
        k = self.insertion(want, t, p)
        want.nodes[k]["src"] = [want.nodes[g]["src"][j]]
        want.nodes[g]["src"][j] = (k, 0)
        return (lambda: f(sid, gen.make_op(t, p, ""))), want, None

    def do_remove(self, h):
        g = self.choose(self.ids(lambda d: d["t"] not in ("in", "out", "sink", "dontcare", "c")), h["a"])
        if g is None:
            return None
        n_in, n_out = n_ports(self.nl.nodes[g])
        want = self.base(g, (g,))
        if n_in != n_out:
            return (lambda: self.sfg.remove_operation(g)), None, ValueError
        src = want.nodes[g]["src"]
        if any(s[0] == g for s in src):
            return None
        del want.nodes[g]
        for j in range(n_out):
            self.redirect(want, (g, j), src[j])
        if loops(want) or floating(want):
            return None
        return (lambda: self.sfg.remove_operation(g)), want, None

    def do_simplify(self, h):
        want = self.base("")
        n = sum(d["t"] == "t" for d in self.nl.nodes.values())

        def call():
            r = self.sfg.simplify_delay_element_placement()
            m = sum(op.type_name() == "t" for op in r.operations)
            if m > n:
                raise Violation("more-delays", f"{n} delays became {m}", "simplify")
            return r

        self.keep = [k for k in self.keep if self.nl.nodes[k]["t"] != "t"]
        return call, want, None

    def do_flatten(self, h):
        want = self.base("")
        self.keep = []
        return (lambda: self.flat(self.sfg.flatten())), want, None

    def flat(self, r):
        if any(op.type_name() == "sfg" for op in r.operations):
            raise Violation("not-flat", "a nested graph remains", "flatten")
        return r

    def do_expand(self, h):
        want = self.base("expand")
        self.keep = []
        return (lambda: self.flat(self.sfg.flatten(expand=True))), want, None

    def do_unfold(self, h):
        k = 1 + h["a"] % 3
        if len(self.nl.nodes) * k > 60:
            return None
        want = self.base(f"{k} times")
        n = len(want.inputs)
        m = len(want.outputs)
        old = behave(want, self.stim)

        def check(new):
            if len(new.inputs) != n * k or len(new.outputs) != m * k:
                raise Violation("wrong-interface", f"unfold {k}: {len(new.inputs)} inputs, {len(new.outputs)} outputs",
                                "unfold")
            blocks = len(self.stim[0]) // k
            stim = [[self.stim[i][b * k + j] for b in range(blocks)] for j in range(k) for i in range(n)]
            got = behave(new, stim)
            if got == "loop":
                raise Violation("function-changed", "unfolding made a loop", "unfold")
            if old == "loop":
                raise InvalidTrace
            full = len(got[0]) if got else 0
            woven = [[got[j * m + o][b] for b in range(full) for j in range(k)] for o in range(m)]
            self.compare("unfold", [x[: blocks * k] for x in old], woven)
            self.stim = stim

        return (lambda: self.sfg.unfold(k)), check, None

    def do_swap(self, h):
        g = self.choose(self.ids(lambda d: d["t"] in FUNCS and d["t"] not in ("c", "ser2p")), h["a"])
        if g is None:
            return None
        want = self.base(g, (g,))

        def call():
            r = self.sfg()
            r.swap_io_of_operation(g)
            return r

        if not self.sfg.find_by_id(g).is_swappable:
            return call, None, TypeError
        h["cut"] = None
        return call, want, None

    def do_rewrite(self, h):
        from b_asic.core_operations import AddSub, Shift, ShiftAddSub

        src = [AddSub, ShiftAddSub, Shift][h["b"] % 3]
        ok = {AddSub: {"add", "sub"}, ShiftAddSub: {"add", "sub", "addsub", "cmul"}, Shift: {"cmul"}}[src]
        g = self.choose(self.ids(lambda d: d["t"] in ok), h["a"])
        if g is None or any(d["t"] == "sfg" for d in self.nl.nodes.values()):
            return None
        v = self.nl.nodes[g]["p"].get("value", 1)
        if isinstance(v, complex):
            return None
        want = self.base(f"{self.nl.nodes[g]['t']} {self.nl.nodes[g]['p']} as {src.__name__}", (g,))
        return (lambda: self.sfg.rewrite(src, g if h["p"] % 2 else self.sfg.find_by_id(g))), want, None

    def do_join(self, h):
        g = self.choose(self.ids(lambda d: d["t"] == "imul"), h["a"])
        if g is None or any(d["t"] == "sfg" for d in self.nl.nodes.values()):
            return None
        users = [(k, j) for k, d in self.nl.nodes.items() for j, s in enumerate(d["src"]) if s[0] == g]
        want = self.base(g, [g, *(k for k, _ in users)])
        call = lambda: self.sfg.join(g, "forward")  # noqa: E731
        if users and all(j == 1 and self.nl.nodes[k]["t"] in JOINS for k, j in users):
            return call, want, None
        return call, want, ValueError

    def do_extract(self, h):
        ids = self.ids(lambda d: d["t"] in FUNCS and d["t"] != "c")
        if not ids:
            return None
        rng = random.Random(h["a"])
        some = rng.sample(ids, min(len(ids), rng.randint(1, 3)))
        want = self.base(some, some)
        return (lambda: self.sfg.extract(some)), want, None

    def do_nest(self, h):
        """Wrap an operation into a graph of its own."""
        g = self.choose(self.ids(lambda d: d["t"] in FUNCS and d["t"] != "c"), h["a"])
        if g is None:
            return None
        t, p = self.nl.nodes[g]["t"], self.nl.nodes[g]["p"]
        n_in, n_out = n_ports(self.nl.nodes[g])
        want = self.base(f"{t} in a graph", (g,))

        def call():
            import b_asic as b

            op = gen.make_op(t, jsonable(t, p), "x")
            ins = [b.Input(f"i{k}") for k in range(n_in)]
            for k in range(n_in):
                op.input(k).connect(ins[k].output(0))
            outs = [b.Output(op.output(k), f"o{k}") for k in range(n_out)]
            return self.sfg.replace(g, b.SFG(ins, outs, name=f"nest{self.done}"))

        return call, want, None

    def do_bad(self, h):
        self.base(h["a"] % 7)
        s = self.sfg
        neg = gen.make_op("neg", {}, "")
        two = gen.make_op("r2bfly", {}, "")
        out = self.nl.outputs[0]
        cases = [
            (lambda: s.replace("nosuch0", neg), ValueError),
            (lambda: s.insert_operation_after("nosuch0", neg), ValueError),
            (lambda: s.insert_operation_before("nosuch0", neg), ValueError),
            (lambda: s.insert_operation_after(out, neg), TypeError),
            (lambda: s.insert_operation_before(self.nl.inputs[0], neg), TypeError),
            (lambda: s.insert_operation_before(out, two), TypeError),
            (lambda: s.unfold(0), ValueError),
        ]
        f, exc = cases[h["a"] % 7]
        return f, None, exc


def jsonable(t, p):
    q = dict(p)
    for k in ("w", "w0", "w1"):
        if k in q:
            q[k] = [complex(q[k]).real, complex(q[k]).imag]
    return q


def sig(op):
    return (type(op).__name__, op.name, tuple(sorted((k, repr(v)) for k, v in op.params.items())),
            tuple(q.latency_offset for q in op.inputs), tuple(q.latency_offset for q in op.outputs),
            op.execution_time)


def loops(nl):
    nl._order = None
    try:
        nl.order()
    except ValueError:
        return True
    # Only delays
    for k in nl.nodes:
        s, hops = k, 0
        while nl.nodes[s]["t"] == "t":
            s = nl.nodes[s]["src"][0][0]
            hops += 1
            if hops > len(nl.nodes):
                return True
    return False


def floating(nl):
    """Every operation reads, directly or not, an input or a constant, and reaches an output."""
    adj = {k: set() for k in nl.nodes}
    for k, d in nl.nodes.items():
        for s, _ in d["src"]:
            adj[k].add(s)
            adj[s].add(k)
    seen, stack = set(), [*nl.inputs, *nl.outputs]
    while stack:
        k = stack.pop()
        if k not in seen:
            seen.add(k)
            stack += adj.get(k, ())
    used = {s[0] for d in nl.nodes.values() for s in d["src"]}
    return not seen.issuperset(nl.nodes) or any(i not in used for i in nl.inputs)


def execute(trace, cov):
    r = Run(trace, cov)
    for h in trace["acts"]:
        h = dict(h)
        if len(r.sfg.operations) > 45:
            break
        res = r.act(h)
        cov.step()
        cov.probe(f"{h['op']}:{res}")
    if r.done >= 2:
        cov.nontrivial.add(cov.digest()[:16])


def simplify(t):
    for s in gen.simplify_spec(t["g"]["spec"]):
        k = sum(n["t"] == "in" for n in s["nodes"])
        yield dict(t, g=dict(t["g"], spec=s), stim=t["stim"][:k])
    if t["g"]["timing"]:
        yield dict(t, g=dict(t["g"], timing={}))
    for i, h in enumerate(t["acts"]):
        if h["cut"] is not None:
            yield dict(t, acts=t["acts"][:i] + [dict(h, cut=None)] + t["acts"][i + 1:])


SHRINK_LISTS = {"acts"}
