"""P03: a rejected schedule edit leaves the schedule as it was."""

from __future__ import annotations

from dst import edits, machine, sched
from dst.core import Violation
from dst.props.p02 import simplify as _simplify

EPISODES = {"quick": 5000, "thorough": 150000}
RULE = (
    "one run = one random timed SFG and a random edit history in which about half of the edits are "
    "impossible; the schedule is compared before and after each rejected edit; distinct = "
    "distinct trace with at least 2 rejected and 1 accepted edit"
)
REAL = ["b_asic.schedule.Schedule", "ASAP/ALAP schedulers", "SFG"]
STUB = ["none"]
ASSUMPTIONS = ["an edit is impossible only by the documented rules the driver asks for"]
TIME_UNIT = "none"
STATE_MEASURE = "hash of (start times, laps, period) after each edit"


def generate(rng, index, tier):
    g = sched.random_timed(rng, rng.randint(1, 8), zero=rng.random() < 0.15, sink_prob=0.3)
    return {
        "g": g,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.randint(3, 16), 0.5, lat=True),
    }


def execute(trace, cov):
    sched.valid_timing(trace["g"])
    ses = edits.Session(trace, cov)
    if ses.sch is None:
        return
    s = ses.sch
    n = {"ok": 0, "rejected": 0, "skip": 0}
    for h in trace["hist"]:
        try:
            res = ses.apply(h)
        except Violation as v:
            if v.kind == "swap-changes-function":  # P02's
                return
            raise
        n[res] += 1
        cov.probe(f"{h['op']}:{res}")
        key = (sorted(s.start_times.items()), sorted((k, v) for k, v in s.laps.items() if v),
               s.schedule_time)
        cov.log(h["op"], res, key)
        cov.state(key)
        cov.step()
        if any(v < 0 for v in s.laps.values()):
            return  # P02's finding: nothing later is legal
    if n["rejected"] >= 2 and n["ok"]:
        cov.nontrivial.add(cov.digest()[:16])


def simplify(t):
    for c in _simplify(dict(t, stim=[])):
        c.pop("stim")
        yield c


SHRINK_LISTS = {"hist"}
