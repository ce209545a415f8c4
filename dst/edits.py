"""Edit histories of schedules (shared by P02 and P03)."""

from __future__ import annotations

import sys

from dst import gen, machine, sched
from dst.core import InvalidTrace, Violation
from dst.model import FUNCS, eq


def gen_history(rng, spec, n, bad, lat=False):
    nodes = len(spec["nodes"])
    hist = []
    for _ in range(n):
        r = rng.random()
        node = rng.randrange(nodes)
        if r < bad:
            k = rng.choice(["bad_move", "bad_move", "bad_time", "bad_res", "bad_exec", "bad_swap",
                            "bad_id", "bad_latency"])
            h = {"op": k, "node": node, "x": rng.randint(0, 7)}
        elif r < bad + 0.42 * (1 - bad):
            h = {"op": "move", "node": node, "x": rng.random().__round__(3)}
        else:
            k = rng.choice(["alap", "asap", "rot_f", "rot_f", "rot_b", "rot_b", "time", "time",
                            "res_up", "res_down", "swap", "exec", "y", "sort_y"]
                           + (["latency", "latency"] if lat else []))
            h = {"op": k, "node": node, "x": rng.randint(0, 7)}
            if k in ("rot_f", "rot_b"):
                h["n"] = rng.choice([1, 1, 2, 3, 5])
        hist.append(h)
    return hist


def first_schedule(rng):
    return {
        "kind": rng.choice(["asap", "asap", "alap"]),
        "extra": rng.choice([None, 0, 0, 1, 2, 5]),
        "cyclic": rng.random() < 0.8,
    }


def make_schedule(t, sfg):
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler

    f = t["first"]
    cls = {"asap": ASAPScheduler, "alap": ALAPScheduler}[f["kind"]]
    base = Schedule(sfg, ASAPScheduler(), cyclic=f["cyclic"]).schedule_time
    if f["extra"] is None and base:
        return Schedule(sfg, cls(), cyclic=f["cyclic"])
    # A period of 0 cycles is no schedule
    T = max(1, base + (f["extra"] or 0))
    return Schedule(sfg, cls(), schedule_time=T, cyclic=f["cyclic"])


def snapshot(sch):
    """Everything observable of a schedule."""
    ops = machine.live_ops(sch)
    return {
        "T": sch.schedule_time,
        "cyclic": sch.cyclic,
        "starts": dict(sch.start_times),
        "laps": {k: v for k, v in sch.laps.items() if v},
        "y": {g: sch.get_y_location(g) for g in ops},
        "ops": {
            g: (
                op.type_name(),
                tuple(sorted((k, repr(v)) for k, v in op.params.items())),
                tuple(q.latency_offset for q in op.inputs),
                tuple(q.latency_offset for q in op.outputs),
                op.execution_time,
                tuple(
                    (q.signals[0].graph_id, q.signals[0].source.operation.graph_id,
                     q.signals[0].source.index)
                    for q in op.inputs
                ),
            )
            for g, op in ops.items()
        },
    }


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                ks = [x for x in sorted(set(a[k]) | set(b[k]), key=str)
                      if a[k].get(x) != b[k].get(x)]
                return f"{k}: " + ", ".join(f"{x}: {a[k].get(x)} -> {b[k].get(x)}" for x in ks[:3])
            return f"{k}: {a[k]} -> {b[k]}"
    return ""


def swap_keeps_function(t, old, new):
    """Swapping may change parameters, but must leave the function as it was."""
    n_in, n_out, f = FUNCS[t]
    perm = machine.Perm()
    perm.swap("o", t)
    for vals in ([3, -5, 11], [7, 2, -4], [1, 0, 0], [0, 0, 1]):
        vals = vals[:n_in]
        want = f(old, *vals)
        got = f(new, *[vals[perm.inp("o", k)] for k in range(n_in)])
        want = [want[perm.out("o", k)] for k in range(n_out)]
        if not all(eq(a, b) for a, b in zip(got, want, strict=True)):
            raise Violation(
                "swap-changes-function", f"{t}: {old} -> {new}, {vals}: {want} -> {list(got)}", t
            )


class Session:
    """One schedule being edited."""

    def __init__(self, trace, cov):
        self.cov = cov
        self.trace = trace
        sfg = sched.build(trace["g"])
        try:
            self.sch = make_schedule(trace, sfg)
        except ValueError as e:
            cov.probe("not-schedulable")
            self.sch = None
            self.why = str(e)
            return
        self.perm = machine.Perm()
        self.gid = {}
        ops = machine.live_ops(self.sch)
        for g, op in ops.items():
            self.gid[op.name] = g

    def node(self, h):
        return self.gid.get(gen.node_name(h["node"]))

    def apply(self, h):
        """
        Apply one edit. Returns "ok", "rejected" or "skip".

        A legitimate edit must be accepted; an impossible one must raise.
        """
        s = self.sch
        op = h["op"]
        g = self.node(h)
        T = s.schedule_time
        if g is None and op in ("move", "alap", "asap", "swap", "y", "bad_move", "bad_swap"):
            return "skip"
        if op == "move":
            b, f = s.slacks(g)
            lo = -min(b, 2 * T + 2)
            hi = min(f, 2 * T + 2)
            dt = lo + round(h["x"] * (hi - lo))
            s.move_operation(g, dt)
            return "ok"
        if op == "bad_move":
            b, f = s.slacks(g)
            if f < sys.maxsize and (h["x"] % 2 or b == sys.maxsize):
                dt = f + 1 + h["x"]
            elif b < sys.maxsize:
                dt = -b - 1 - h["x"]
            else:
                return "skip"
            return self.reject(lambda: s.move_operation(g, dt), ValueError, f"move {dt}")
        if op == "alap":
            s.move_operation_alap(g)
            return "ok"
        if op == "asap":
            s.move_operation_asap(g)
            return "ok"
        if op in ("rot_f", "rot_b"):
            f = s.rotate_forward if op == "rot_f" else s.rotate_backward
            if not s.cyclic:
                return self.reject(f, ValueError, "rotate a non-cyclic schedule")
            if h["n"] < 1:
                raise InvalidTrace
            for _ in range(h["n"]):
                f()
            return "ok"
        if op == "time":
            lo = max(1, s.get_max_end_time())
            s.set_schedule_time(max(lo, T + h["x"] - 3))
            return "ok"
        if op == "bad_time":
            lo = s.get_max_end_time()
            if lo - 1 - h["x"] < 0:
                return "skip"
            return self.reject(lambda: s.set_schedule_time(lo - 1 - h["x"]), ValueError, "time")
        if op == "res_up":
            if T * (2 + h["x"] % 2) > 400:
                return "skip"
            s.increase_time_resolution(2 + h["x"] % 2)
            return "ok"
        if op == "res_down":
            poss = s.get_possible_time_resolution_decrements()
            s.decrease_time_resolution(poss[h["x"] % len(poss)])
            return "ok"
        if op == "bad_res":
            poss = s.get_possible_time_resolution_decrements()
            f = next(x for x in range(2 + h["x"], 500) if x not in poss)
            return self.reject(lambda: s.decrease_time_resolution(f), ValueError, f"resolution {f}")
        if op in ("swap", "bad_swap"):
            o = machine.live_ops(s)[g]
            t = o.type_name()
            if t not in machine.FUNCS or t == "c":
                return "skip"
            if o.is_swappable and op == "swap":
                before = dict(o.params)
                s.swap_io_of_operation(g)
                self.perm.swap(o.name, t)
                swap_keeps_function(t, before, dict(machine.live_ops(s)[g].params))
                return "ok"
            if not o.is_swappable and t not in ("mad", "mads", "sym2p", "ser2p", "par2p"):
                return self.reject(lambda: s.swap_io_of_operation(g), TypeError, f"swap {t}")
            return "skip"
        if op == "exec":
            t = self.type_of(h)
            if t is None:
                return "skip"
            s.set_execution_time_of_type_name(t, 1 + h["x"] % 3)
            return "ok"
        if op == "bad_exec":
            t = self.type_of(h)
            if t is None:
                return "skip"
            return self.reject(
                lambda: s.set_execution_time_of_type_name(t, -1 - h["x"]), ValueError, "exec"
            )
        if op == "latency":
            t = self.type_of(h)
            if t is None:
                return "skip"
            lat = 1 + h["x"] % 5
            before = snapshot(s)
            try:
                s.set_latency_of_type_name(t, lat)
            except ValueError:
                self.unchanged(before, f"latency {lat}")
                return "rejected"
            return "ok"
        if op == "bad_latency":
            t = self.type_of(h)
            if t is None:
                return "skip"
            o = next(o for o in machine.live_ops(s).values() if o.type_name() == t)
            f = s.forward_slack(o.graph_id)
            if f == sys.maxsize or o.latency is None:
                return "skip"
            top = max(q.latency_offset for q in o.outputs)
            return self.reject(
                lambda: s.set_latency_of_type_name(t, top + f + 1 + h["x"]), ValueError,
                "latency",
            )
        if op == "y":
            ys = {s.get_y_location(x) for x in machine.live_ops(s)}
            if None in ys:
                return "skip"
            top = max(ys)
            s.move_y_location(g, h["x"] % (int(top) + 2), insert=bool(h["x"] % 2))
            return "ok"
        if op == "sort_y":
            s.sort_y_locations_on_start_times()
            return "ok"
        if op == "bad_id":
            return self.reject(lambda: s.move_operation("nosuch0", 1), ValueError, "unknown id")
        raise InvalidTrace

    def type_of(self, h):
        g = self.node(h)
        if g is None:
            return None
        t = machine.live_ops(self.sch)[g].type_name()
        return t if t in machine.FUNCS and t != "c" else None

    def reject(self, f, exc, what):
        before = snapshot(self.sch)
        try:
            f()
        except exc:
            self.cov.fault("rejected-edit")
            self.unchanged(before, what)
            return "rejected"
        raise Violation("impossible-edit-accepted", f"{what} was accepted", what.split()[0])

    def unchanged(self, before, what):
        d = diff(before, snapshot(self.sch))
        if d:
            raise Violation("rejected-edit-changed-schedule", f"after rejected {what}: {d}",
                            what.split()[0])
