"""
A clocked machine that executes a schedule.

Operation instance k of an operation that starts at s runs at cycle k*T + s. It reads its
input ports at their offsets and its outputs become available at theirs. Which instance of
the source it reads follows from the laps of the schedule. Values are only visible from the
cycle they become available on.
"""

from __future__ import annotations

from collections import defaultdict

from dst.core import Violation
from dst.model import FUNCS, edges_of, eq, netlist_of

FREE = ("c", "dontcare")  # their value does not depend on the iteration


class Plan:
    """What a schedule says, read through its public interface."""

    def __init__(self) -> None:
        self.ops: dict = {}  # name -> dict(t, p, s, ins, outs, ex, gid)
        self.edges: dict = {}  # (dst name, port) -> (src name, port, laps)
        self.T = 0


def live_ops(schedule) -> dict:
    """graph id -> operation object of the schedule."""
    seen = {}
    stack = [p.operation for p in schedule.get_operations()]
    while stack:
        op = stack.pop()
        if op.graph_id in seen:
            continue
        seen[op.graph_id] = op
        for port in op.inputs:
            for s in port.signals:
                stack.append(s.source.operation)
        for port in op.outputs:
            for s in port.signals:
                stack.append(s.destination.operation)
    return seen


def read(schedule) -> Plan:
    p = Plan()
    p.T = schedule.schedule_time
    ops = live_ops(schedule)
    starts = schedule.start_times
    if set(starts) != set(ops):
        raise Violation(
            "operations-differ",
            f"start times for {sorted(set(starts) ^ set(ops))} without operation or vice versa",
            "ops",
        )
    laps = schedule.laps
    for gid, op in ops.items():
        t = op.type_name()
        p.ops[op.name] = {
            "t": t,
            "p": dict(op.params),
            "s": starts[gid],
            "ins": [q.latency_offset or 0 for q in op.inputs],
            "outs": [q.latency_offset or 0 for q in op.outputs],
            "ex": op.execution_time,
            "gid": gid,
        }
        for i, q in enumerate(op.inputs):
            (sig,) = q.signals
            src = sig.source
            p.edges[op.name, i] = (src.operation.name, src.index, laps.get(sig.graph_id, 0))
    return p


def avail(p: Plan, src, port) -> int:
    return p.ops[src]["s"] + p.ops[src]["outs"][port]


def eff(p: Plan, e) -> int:
    """
    Iterations between the instances of source and destination. Laps are counted from when
    the value is available, folded into the period when it falls behind it.
    """
    src, port, laps = e
    return laps + (1 if avail(p, src, port) > p.T else 0)


def check_times(p: Plan) -> None:
    """Every value is available when it is read; start times lie in the period."""
    T = p.T
    if not isinstance(T, int) or isinstance(T, bool) or T < 0:
        raise Violation("bad-schedule-time", f"{T!r}", "T")
    for n, o in p.ops.items():
        if not isinstance(o["s"], int) or not 0 <= o["s"] <= T:
            raise Violation("start-out-of-range", f"{n} ({o['t']}) at {o['s']!r}, T={T}", o["t"])
    for (dst, i), e in p.edges.items():
        src, port, laps = e
        if p.ops[src]["t"] in FREE:
            continue
        use = p.ops[dst]["s"] + p.ops[dst]["ins"][i]
        have = avail(p, src, port) - T * eff(p, e)
        if use < have:
            raise Violation(
                "read-before-write",
                f"{dst}.in{i} reads {src}.out{port} at {use}, available at {have} "
                f"(laps {laps}, T={T})",
                "slack",
            )
        if laps < 0:
            # An input that is read at or after the end of the period can need one.
            raise Violation(
                "negative-laps", f"{src}->{dst}: {laps}", "late-input" if use >= T else "laps"
            )


class Perm:
    """Input/output renumbering by swaps: current index -> original index."""

    def __init__(self) -> None:
        self.i: dict = {}
        self.o: dict = {}

    def swap(self, name, t) -> None:
        n_in, n_out = FUNCS[t][0], FUNCS[t][1]
        pi = {"mad": [1, 0, 2], "mads": [0, 2, 1]}.get(t) or (
            [1, 0] if n_in == 2 else list(range(n_in))
        )
        po = [1, 0] if n_out == 2 else list(range(n_out))
        cur = self.i.get(name, list(range(n_in)))
        self.i[name] = [cur[k] for k in pi]
        cur = self.o.get(name, list(range(n_out)))
        self.o[name] = [cur[k] for k in po]

    def inp(self, name, k):
        return self.i[name][k] if name in self.i else k

    def out(self, name, k):
        return self.o[name][k] if name in self.o else k


def retiming(p: Plan, orig_edges: dict, perm: Perm | None = None) -> dict:
    """
    The iteration offset r of every operation such that instance k of it is iteration
    k - r of the original graph. Raises if there is none: then some path or loop
    has more or fewer delays than in the original graph.
    """
    perm = perm or Perm()
    want = {}
    for (dst, i), e in p.edges.items():
        src, port, _ = e
        o = orig_edges.get((dst, perm.inp(dst, i)))
        if o is None or (o[0], o[1]) != (src, perm.out(src, port)):
            raise Violation(
                "connections-differ", f"{dst}.in{i} reads {src}.out{port}, originally {o}", "edges"
            )
        want[dst, i] = (src, eff(p, e) - o[2])
    if len(want) != len(orig_edges):
        raise Violation("connections-differ", "an input has no source", "edges")
    adj = defaultdict(list)
    for (dst, _), (src, d) in want.items():
        if p.ops[src]["t"] in FREE:
            continue
        adj[dst].append((src, -d))
        adj[src].append((dst, d))
    r: dict = {}
    for root in p.ops:
        if root in r:
            continue
        r[root] = 0
        stack = [root]
        while stack:
            u = stack.pop()
            for v, d in adj[u]:
                if v not in r:
                    r[v] = r[u] + d
                    stack.append(v)
                elif r[v] != r[u] + d:
                    raise Violation(
                        "delays-not-conserved",
                        f"the paths between {u} and {v} do not all have the delays of the "
                        "original graph",
                        "delays",
                    )
    return r


def execute(p: Plan, r: dict, inputs: dict, n: int, cov=None) -> dict:
    """
    Run the machine until original iterations 0..n-1 of all outputs are done.

    inputs: input name -> samples. Returns output name -> list of n values.
    """
    T = p.T
    events = []
    for name, o in p.ops.items():
        for it in range(n):
            k = it + r[name]
            # The last read of the instance decides when it can compute.
            last = max([o["s"] + x for x in o["ins"]], default=o["s"])
            events.append((k * T + last, k, name, it))
    # Values by (operation, instance): (values of the output ports)
    store: dict = {}
    done: dict = {}
    pending = sorted(events)
    guard = 0
    # Zero-latency operations chain inside a cycle: repeat until the cycle settles.
    i = 0
    while i < len(pending):
        j = i
        t = pending[i][0]
        while j < len(pending) and pending[j][0] == t:
            j += 1
        batch = pending[i:j]
        while batch:
            rest = []
            for ev in batch:
                _, k, name, it = ev
                o = p.ops[name]
                vals = []
                ready = True
                for q in range(len(o["ins"])):
                    src, port, _ = p.edges[name, q]
                    so = p.ops[src]
                    if so["t"] == "c":
                        vals.append(so["p"]["value"])
                        continue
                    if so["t"] == "dontcare":
                        vals.append(0)
                        continue
                    ks = k - eff(p, p.edges[name, q])
                    its = ks - r[src]
                    if its < 0:
                        vals.append(0)
                        continue
                    if (src, ks) not in store:
                        ready = False
                        break
                    at = ks * T + so["s"] + so["outs"][port]
                    use = k * T + o["s"] + o["ins"][q]
                    if at > use:
                        raise Violation(
                            "read-before-write",
                            f"{name} instance {k} reads {src} instance {ks} at {use}, "
                            f"available at {at}", "machine")
                    vals.append(store[src, ks][port])
                if not ready:
                    rest.append(ev)
                    continue
                tt = o["t"]
                if tt == "in":
                    store[name, k] = (inputs[name][it],)
                elif tt == "out":
                    done[name, it] = vals[0]
                    store[name, k] = (vals[0],)
                elif tt in ("sink",):
                    pass
                elif tt in FREE:
                    pass
                else:
                    store[name, k] = tuple(FUNCS[tt][2](o["p"], *vals))
            if len(rest) == len(batch):
                # Reads of the first reads' sources may complete later than the last read of
                # this instance only if a value is read before it is written.
                ev = rest[0]
                raise Violation(
                    "read-before-write", f"{ev[2]} instance {ev[1]} cannot read at {ev[0]}",
                    "machine",
                )
            batch = rest
            guard += 1
        i = j
    if cov is not None:
        cov.sim_time += n * T
        cov.step(len(events))
    return {
        name: [done[name, it] for it in range(n)]
        for name, o in p.ops.items()
        if o["t"] == "out"
    }


def check_sfg(schedule, p: Plan, perm: Perm | None = None) -> None:
    """The graph reconstructed from the schedule has the delays the laps say."""
    sfg = schedule.sfg
    nl = netlist_of(sfg)
    names = {op.graph_id: op.name for op in sfg.operations}
    rec = {
        (names[d], i): (names[s], q, n) for (d, i), (s, q, n) in edges_of(nl).items()
    }
    for name, o in p.ops.items():
        if name not in names.values():
            raise Violation("reconstructed-graph-differs", f"{name} ({o['t']}) is missing", "ops")
    for op in sfg.operations:
        if op.type_name() == "t":
            continue
        if op.name not in p.ops or dict(op.params) != p.ops[op.name]["p"]:
            raise Violation("reconstructed-graph-differs", f"{op.name} {op.params}", "params")
    if set(rec) != set(p.edges):
        raise Violation(
            "reconstructed-graph-differs", f"inputs {sorted(set(rec) ^ set(p.edges))}", "edges"
        )
    for key, e in p.edges.items():
        src, port, _ = e
        if p.ops[src]["t"] in FREE:
            if rec[key][:2] != (src, port):
                raise Violation("reconstructed-graph-differs", f"{key}: {rec[key]}", "edges")
            continue
        if rec[key] != (src, port, eff(p, e)):
            raise Violation(
                "reconstructed-graph-differs",
                f"{key[0]}.in{key[1]}: from {rec[key]}, schedule says {(src, port, eff(p, e))}",
                "delays",
            )


def named_edges(spec_nl, name) -> dict:
    """edges_of with names."""
    return {
        (name(d), i): (name(s), q, n) for (d, i), (s, q, n) in edges_of(spec_nl).items()
    }


def compare(outs: dict, ref: dict) -> None:
    for name, vals in ref.items():
        for k, (a, b) in enumerate(zip(outs[name], vals, strict=True)):
            if not eq(a, b):
                raise Violation(
                    "wrong-output", f"{name}[{k}] = {a}, the graph computes {b}", "values"
                )
