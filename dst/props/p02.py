"""P02: editing a schedule never changes what it computes."""

from __future__ import annotations

from dst import edits, gen, machine, sched
from dst.core import InvalidTrace, Violation

EPISODES = {"quick": 4000, "thorough": 100000}
RULE = (
    "one run = one random timed SFG, one initial schedule and a random edit history; after every "
    "edit the laps and times are checked, at the end the schedule is executed cycle by cycle; "
    "distinct = distinct trace with at least 3 accepted edits that changed the schedule"
)
REAL = ["b_asic.schedule.Schedule", "ASAP/ALAP schedulers", "SFG copying and delay insertion"]
STUB = ["none"]
ASSUMPTIONS = [
    "delay initial values are 0 (a schedule does not keep them)",
    "no operation has an output latency above the period",
]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of (start times, laps, period) after each edit"


def generate(rng, index, tier):
    cplx = rng.random() < 0.15
    g = sched.random_timed(rng, rng.randint(1, 8), zero=rng.random() < 0.15,
                           sink_prob=0.3, cplx=cplx,
                           types=sched.CTYPES if cplx else sched.TYPES)
    n = rng.randint(2, 12)
    return {
        "g": g,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], n, 0.06, lat=True),
        "stim": gen.stimuli(rng, sched.n_inputs(g["spec"]), 6),
    }


def execute(trace, cov):
    sched.valid_timing(trace["g"])
    ses = edits.Session(trace, cov)
    if ses.sch is None:
        return
    s = ses.sch
    spec = trace["g"]["spec"]
    orig = sched.orig_edges(spec)
    ins, ref = sched.reference(spec, trace["stim"], 6)

    def judge(full):
        p = machine.read(s)
        for o in p.ops.values():
            if max(o["outs"], default=0) > p.T:
                cov.probe("latency-above-period")
                return False
        machine.check_times(p)
        r = machine.retiming(p, orig, ses.perm)
        if full:
            machine.check_sfg(s, p)
            machine.compare(machine.execute(p, r, ins, 6, cov), ref)
            cov.probe("executed")
            if any(r.values()):
                cov.probe("executed-retimed")
        return True

    if s.schedule_time == 0:
        return
    if not judge(True):
        return
    changed = 0
    prev = None
    for i, h in enumerate(trace["hist"]):
        res = ses.apply(h)
        cov.probe(f"{h['op']}:{res}")
        key = (sorted(s.start_times.items()), sorted((k, v) for k, v in s.laps.items() if v),
               s.schedule_time)
        cov.log(h["op"], res, key)
        cov.state(key)
        try:
            if not judge(i == len(trace["hist"]) - 1 or i % 4 == 3):
                return
        except Violation as v:
            if v.kind == "negative-laps" and v.key == "late-input":
                raise
            v.key = f"{h['op']}:{v.key}"
            raise
        if key != prev and res == "ok":
            changed += 1
        prev = key
    if changed >= 3:
        cov.nontrivial.add(cov.digest()[:16])


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        k = sched.n_inputs(g["spec"])
        yield dict(t, g=g, stim=t["stim"][:k])
    f = t["first"]
    for nf in (dict(f, kind="asap"), dict(f, extra=0), dict(f, extra=None)):
        if nf != f:
            yield dict(t, first=nf)
    for i, h in enumerate(t["hist"]):
        if h.get("n", 1) > 1:
            yield dict(t, hist=t["hist"][:i] + [dict(h, n=h["n"] - 1)] + t["hist"][i + 1 :])


SHRINK_LISTS = {"hist"}
