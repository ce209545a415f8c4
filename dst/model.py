"""
Reference models, written from the documentation and independent of the code under test.

* FUNCS: what each operation computes.
* Netlist: a plain description of a signal-flow graph, and its iteration semantics
  (every operation once per iteration, a unit delay hands on the value of the previous
  iteration, starting from its initial value).
"""

from __future__ import annotations

import cmath
import math


def _addsub(is_add, a, b):
    return a + b if is_add else a - b


def _mulj(p, b):
    return b * 1j if p.get("mul_j") else b


def _so(p, r):
    s = p.get("shift_output", 0)
    return r / (2**s) if s else r


# type name -> (inputs, outputs, function(params, *inputs) -> tuple of outputs)
FUNCS = {
    "c": (0, 1, lambda p: (p["value"],)),
    "fop": (1, 1, lambda p, a: (a,)),
    "neg": (1, 1, lambda p, a: (-a,)),
    "add": (2, 1, lambda p, a, b: (_so(p, a + _mulj(p, b)),)),
    "sub": (2, 1, lambda p, a, b: (_so(p, a - _mulj(p, b)),)),
    "addsub": (2, 1, lambda p, a, b: (_so(p, _addsub(p["is_add"], a, _mulj(p, b))),)),
    "shiftaddsub": (
        2,
        1,
        lambda p, a, b: (_so(p, _addsub(p["is_add"], a, _mulj(p, b / 2 ** p["shift"]))),),
    ),
    "mul": (2, 1, lambda p, a, b: (a * b,)),
    "div": (2, 1, lambda p, a, b: (a / b,)),
    "cmul": (1, 1, lambda p, a: (a * p["value"],)),
    "imul": (1, 1, lambda p, a: (a * 1j,)),
    "rec": (1, 1, lambda p, a: (1 / a,)),
    "conj": (1, 1, lambda p, a: (a.conjugate(),)),
    "abs": (1, 1, lambda p, a: (abs(a),)),
    "min": (2, 1, lambda p, a, b: (min(a, b),)),
    "max": (2, 1, lambda p, a, b: (max(a, b),)),
    "mad": (3, 1, lambda p, a, b, c: (a * b + c if p["do_add"] else a * b,)),
    "mads": (
        3,
        1,
        lambda p, a, b, c: (
            (a if p["do_addsub"] else 0) + (b * c if p["is_add"] else -b * c),
        ),
    ),
    "rshift": (1, 1, lambda p, a: (a / 2 ** p["value"],)),
    "lshift": (1, 1, lambda p, a: (a * 2 ** p["value"],)),
    "shift": (1, 1, lambda p, a: (a / 2 ** p["value"],)),
    "sym2p": (
        2,
        2,
        lambda p, a, b: (b + p["value"] * (b - a), a + p["value"] * (b - a)),
    ),
    "ser2p": (
        2,
        2,
        lambda p, a, b: (a - p["value"] * a, -(a + b + (a - p["value"] * a))),
    ),
    "par2p": (
        2,
        2,
        lambda p, a, b: (
            b - p["value"] * (b - a) + (b - a),
            b - p["value"] * (b - a),
        ),
    ),
    "rfs3p": (
        3,
        3,
        lambda p, a, b, c: (
            a - p["value"] * (b + a + c),
            -(a + c),
            -(a - p["value"] * (b + a + c) + b),
        ),
    ),
    "ser3p": (
        3,
        3,
        lambda p, a, b, c: (
            a - p["value"][0] * (a + b + c),
            b - p["value"][1] * (a + b + c),
            -(
                a
                - p["value"][0] * (a + b + c)
                + b
                - p["value"][1] * (a + b + c)
                + a
                + b
                + c
            ),
        ),
    ),
    "r2bfly": (2, 2, lambda p, a, b: (a + b, a - b)),
    "r2difbfly": (2, 2, lambda p, a, b: (a + b, p["w"] * (a - b))),
    "r2ditbfly": (2, 2, lambda p, a, b: (a + p["w"] * b, a - p["w"] * b)),
    "r2tfbfly": (2, 2, lambda p, a, b: (p["w0"] * (a + b), p["w1"] * (a - b))),
    "r4bfly": (
        4,
        4,
        lambda p, a, b, c, d: (
            a + b + c + d,
            a - 1j * b - c + 1j * d,
            a - b + c - d,
            a + 1j * b - c - 1j * d,
        ),
    ),
}


def eq(a, b) -> bool:
    """Same number; a rounding of the last bits is not a difference."""
    try:
        if a == b:
            return True
        ca, cb = complex(a), complex(b)
    except (OverflowError, TypeError, ValueError):
        return False
    if cmath.isnan(ca) or cmath.isnan(cb):
        return cmath.isnan(ca) and cmath.isnan(cb)
    if cmath.isinf(ca) or cmath.isinf(cb):
        return ca == cb
    return abs(ca - cb) <= 1e-9 * max(1.0, abs(ca), abs(cb))


class Netlist:
    """nodes: id -> dict(t, p, src=[(id, port)...]); plus ordered inputs and outputs."""

    def __init__(self) -> None:
        self.nodes: dict = {}
        self.inputs: list = []
        self.outputs: list = []

    def add(self, nid, t, p, src) -> None:
        self.nodes[nid] = {"t": t, "p": p, "src": list(src)}

    def order(self) -> list:
        """Combinational evaluation order (delays are sources). Raises on a delay-free loop."""
        if getattr(self, "_order", None) is not None:
            return self._order
        state: dict = {}
        out: list = []
        for root in self.nodes:
            if state.get(root):
                continue
            stack = [(root, 0)]
            state[root] = 1
            while stack:
                nid, i = stack.pop()
                node = self.nodes[nid]
                srcs = [] if node["t"] == "t" else node["src"]
                if i < len(srcs):
                    stack.append((nid, i + 1))
                    s = srcs[i][0]
                    if state.get(s) == 1:
                        raise ValueError("delay-free loop")
                    if not state.get(s):
                        state[s] = 1
                        stack.append((s, 0))
                else:
                    state[nid] = 2
                    out.append(nid)
        self._order = out
        return out

    def initial_state(self) -> dict:
        return {
            n: d["p"].get("initial_value", 0)
            for n, d in self.nodes.items()
            if d["t"] == "t"
        } | {
            n: d["sub"].initial_state() for n, d in self.nodes.items() if d["t"] == "sfg"
        }

    def step(self, state: dict, inputs: list) -> tuple[dict, dict]:
        """One iteration: (value of every output port, next state)."""
        val: dict = {}
        feed = dict(zip(self.inputs, inputs, strict=True))
        nxt: dict = {}
        for nid in self.order():
            d = self.nodes[nid]
            t = d["t"]
            if t == "in":
                val[nid, 0] = feed[nid]
            elif t == "t":
                val[nid, 0] = state[nid]
            elif t == "out":
                val[nid, 0] = val[d["src"][0]]
            elif t == "sink":
                pass
            elif t == "dontcare":
                val[nid, 0] = 0
            elif t == "sfg":
                sub = d["sub"]
                v, ns = sub.step(state[nid], [val[s] for s in d["src"]])
                nxt[nid] = ns
                for i, o in enumerate(sub.outputs):
                    val[nid, i] = v[o, 0]
            else:
                _, n_out, f = FUNCS[t]
                r = f(d["p"], *[val[s] for s in d["src"]])
                for i in range(n_out):
                    val[nid, i] = r[i]
        for nid, d in self.nodes.items():
            if d["t"] == "t":
                nxt[nid] = val[d["src"][0]]
        return val, nxt

    def run(self, inputs: list[list], n: int) -> list[list]:
        """inputs[i][k]; returns outputs[o][k]."""
        st = self.initial_state()
        out: list[list] = [[] for _ in self.outputs]
        for k in range(n):
            v, st = self.step(st, [x[k] for x in inputs])
            for o, nid in enumerate(self.outputs):
                out[o].append(v[nid, 0])
        return out


def netlist_of(sfg) -> Netlist:
    """The netlist of a b_asic SFG, read through its public graph interface."""
    nl = Netlist()
    for op in sfg.operations:
        t = op.type_name()
        p = {} if t == "sfg" else dict(op.params)
        src = []
        for port in op.inputs:
            s = port.signals[0].source
            src.append((s.operation.graph_id, s.index))
        nl.add(op.graph_id, t, p, src)
        if t == "sfg":
            nl.nodes[op.graph_id]["sub"] = netlist_of(op)
    nl.inputs = [o.graph_id for o in sfg.input_operations]
    nl.outputs = [o.graph_id for o in sfg.output_operations]
    return nl


def edges_of(nl: Netlist) -> dict:
    """
    (destination id, input port) -> (source id, port, number of delays between),
    with the delay operations removed.
    """
    out = {}
    for nid, d in nl.nodes.items():
        if d["t"] == "t":
            continue
        for i, (s, p) in enumerate(d["src"]):
            n = 0
            seen = set()
            while nl.nodes[s]["t"] == "t":
                if s in seen:
                    raise ValueError("loop of delays only")
                seen.add(s)
                n += 1
                s, p = nl.nodes[s]["src"][0]
            out[nid, i] = (s, p, n)
    return out


def floor_div(a: int, b: int) -> int:
    return math.floor(a / b)
