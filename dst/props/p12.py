"""P12: generated standalone storage delivers every variable at its read times."""

from __future__ import annotations

import os
import random
import shutil
import tempfile

from dst import rtl
from dst.core import InvalidTrace, Violation, hash_key

EPISODES = {"quick": 2500, "thorough": 40000}
RULE = (
    "one run = one random cyclic collection of variables with one write and one read in a cycle at most (sparse, dense, "
    "transposition or interleaver), as memory-based or register-based VHDL with random generator options, driven for "
    "several periods with a random word on the input in every clock cycle, a late enable and resets; "
    "distinct = distinct trace in which at least 3 words were compared"
)
REAL = ["b_asic.resources storage generation and allocation", "b_asic.research.interleaver_codegen",
        "b_asic.research.interleaver", "b_asic.code_printer.vhdl.common", "GHDL 4.1 as the hardware"]
STUB = ["clock, enable, reset and input: a test bench that plays the trace"]
ASSUMPTIONS = ["GHDL executes VHDL correctly", "the input runs as many cycles after the schedule counter as addresses "
               "are pipelined", "the enable is constantly on once the storage runs: its data path has no enable",
               "register allocation is a heuristic that may give up with an error"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of (storage kind and options, variables as (start, life time))"


def generate(rng, index, tier):
    shape = rng.choice(["sparse", "sparse", "dense", "transpose", "shuffle", "library", "library"])
    t = {"kind": rng.choice(["memory", "memory", "register"]), "shape": shape, "items": None, "lib": None}
    if shape == "library":
        if rng.random() < 0.6:
            h = rng.randint(1, 6)
            w = rng.choice([None, h, rng.randint(1, 6)])
            t["lib"] = ["transpose", h, w, rng.choice([0, 0, 1, 2, 5])]
            t["T"] = h * (w or h)
        else:
            t["T"] = rng.randint(1, 20)
            t["lib"] = ["random", t["T"], rng.choice([0, 0, 1, 2, 4])]
    elif shape in ("transpose", "shuffle"):
        h, w = rng.randint(1, 5), rng.randint(1, 5)
        T = t["T"] = h * w
        order = list(range(T))
        if shape == "transpose":
            order = [(i % h) * w + i // h for i in range(T)]
        else:
            rng.shuffle(order)
        pos = {v: i for i, v in enumerate(order)}
        late = max(i - pos[i] for i in range(T))
        span = max(pos[i] + late - i for i in range(T))
        late += rng.randint(0, max(T - span, 0)) if rng.random() < 0.5 else 0
        t["items"] = [[i, pos[i] + late - i] for i in range(T)]
    else:
        T = t["T"] = rng.randint(1, 24)
        k = T if shape == "dense" else rng.randint(1, T)
        starts, slots = rng.sample(range(T), k), rng.sample(range(T), k)
        t["items"] = [[s, T if s == r and rng.random() < 0.5 else (r - s) % T]
                      for s, r in zip(starts, slots, strict=True)]
    t["clash"] = 0
    if t["items"] and rng.random() < 0.08:
        # Two writes or two reads in some cycle
        t["clash"] = 1
        s, x = rng.choice(t["items"])
        t["items"].append([s, rng.randint(0, T)] if rng.random() < 0.5 else [rng.randrange(T), 0])
        if rng.random() < 0.5:
            t["items"][-1][1] = (s + x - t["items"][-1][0]) % T
    t.update({
        "seed": rng.randrange(10**6),
        "wl": rng.choice([1, 4, 8, 16]),
        "sync": rng.random() < 0.75,
        "mux": None,
        "how": rng.choice(["left_edge", "greedy_graph_color", "single"]),
        "wait": rng.choice([0, 0, 1, 3]),
        "rst": rng.randint(1, 4),
        "en_rst": rng.random() < 0.5,
        "n": rng.randint(3, 6),
        "reset": [],
    })
    if t["kind"] == "memory":
        if t["sync"] and rng.random() < 0.6:
            t["mux"] = [rng.choice([1, 2, 2, 2, 4, 8]), rng.choice([0, 1, 1, 2, 2, 3])]
        if rng.random() < 0.4:
            t["reset"] = [[rng.randint(1, 3 * t["T"] + 4), rng.randint(1, 3)] for _ in range(rng.randint(1, 2))]
    return t


def collection(t):
    from b_asic.process import PlainMemoryVariable
    from b_asic.research.interleaver import generate_matrix_transposer, generate_random_interleaver
    from b_asic.resources import ProcessCollection

    if t["lib"]:
        kind, *args = t["lib"]
        random.seed(t["seed"])
        if kind == "transpose":
            return generate_matrix_transposer(args[0], args[1], min_lifetime=args[2])
        return generate_random_interleaver(args[0], min_lifetime=args[1])
    T = t["T"]
    items = t["items"]
    if not items:
        raise InvalidTrace
    return ProcessCollection([PlainMemoryVariable(s, 0, {0: x}, f"v{i}") for i, (s, x) in enumerate(items)], T, True)


def wanted(t, coll):
    """The variables as (write time, life time), and what a library collection has to consist of."""
    got = sorted((p.start_time, *p.life_times) for p in coll)
    if t["lib"]:
        T = coll.schedule_time
        if sorted(s for s, *_ in got) != list(range(T)) or {len(x) for x in got} != {2}:
            raise Violation("not-a-permutation", f"{t['lib']}: {got[:8]}", t["lib"][0])
        if t["lib"][0] == "transpose":
            h, w = t["lib"][1], t["lib"][2] or t["lib"][1]
            # Row by row in, column by column out; twice if the life times need it
            first = {s + x - (s // (h * w) * h * w + s % w * h + s % (h * w) // w) for s, x in got}
            if T not in (h * w, 2 * h * w) or len(first) != 1:
                raise Violation("not-a-transposition", f"{t['lib']}: {got[:8]}", "transpose")
        if min(x for _, x in got) != t["lib"][-1]:
            raise Violation("not-min-lifetime", f"{t['lib']}: {got[:8]}", t["lib"][0])
    return got


def execute(t, cov):
    coll = collection(t)
    T = coll.schedule_time
    var = wanted(t, coll)
    clash = len({s for s, _ in var}) < len(var) or len({(s + x) % T for s, x in var}) < len(var)
    if clash and t["lib"]:
        raise Violation("two-reads-at-a-time", f"{t['lib']}: {var[:8]}", t["lib"][0])
    over = max(x for _, x in var) > T
    depth = 0
    before = sorted(repr(p) for p in coll)
    d = tempfile.mkdtemp(prefix="dst-rtl-")
    try:
        path = os.path.join(d, "dut.vhdl")
        random.seed(t["seed"])
        try:
            if t["kind"] == "memory":
                kw = {}
                if t["mux"]:
                    kw = {"adr_mux_size": t["mux"][0], "adr_pipe_depth": t["mux"][1]}
                    depth = t["mux"][1]
                if t["how"] == "single":
                    from b_asic.resources import ProcessCollection

                    cells = [ProcessCollection([p], T, True) for p in sorted(coll, key=lambda p: p.start_time)]
                else:
                    cells = list(coll.split_on_execution_time(t["how"]))
                coll.generate_memory_based_storage_vhdl(
                    path, "dut", t["wl"], cells, 1, 1, 2, input_sync=t["sync"], **kw)
            else:
                coll.generate_register_based_storage_vhdl(path, t["wl"], "dut", 1, 1, 2)
        except ValueError as e:
            limit = bool(t["mux"]) and (t["mux"][0] ** t["mux"][1] > T or not t["sync"])
            if clash or over or limit or (t["kind"] == "register" and len({x for _, x in var}) > 1):
                cov.probe(f"{t['kind']}:refused")
                cov.log("refused", type(e).__name__)
                return
            raise Violation("feasible-refused", f"{t['kind']}: {e}", t["kind"]) from None
        if clash:
            raise Violation("ports-exceeded", f"{t['kind']} for one write and one read in a cycle: {var[:8]}", t["kind"])
        if over and (t["kind"] == "register" or t["how"] == "single"):
            raise InvalidTrace  # no cell can hold it
        with open(path) as f:
            text = f.read()
    finally:
        shutil.rmtree(d)
    if sorted(repr(p) for p in coll) != before:
        raise Violation("collection-changed", t["kind"], t["kind"])
    memory = t["kind"] == "memory"
    late = depth + 2 if memory and t["sync"] else 1
    rng = random.Random(t["seed"] + 1)
    # The clock periods, and the one in which each part (from one reset to the next) starts
    rows, parts = [], []
    resets = [*t["reset"], [None, 0]] if memory else [[None, 0]]
    k = t["rst"]
    for at, nxt in resets:
        rows += [{"rst": 1 if memory else 0, "en": int(t["en_rst"] and memory)} for _ in range(k)]
        rows += [{"rst": 0, "en": 0} for _ in range(t["wait"])]
        parts.append((len(rows), t["n"] * T if at is None else at))
        rows += [{"rst": 0, "en": 1} for _ in range(parts[-1][1])]
        k = nxt
    rows += [{"rst": 0, "en": 1} for _ in range(late + 1)]
    for r in rows:
        r["p_0_in"] = rng.getrandbits(t["wl"])
    got = rtl.run([("dut.vhdl", text)], "dut", {"rst": 0, "en": 0, "p_0_in": t["wl"]}, {"p_0_out": t["wl"]}, rows, cov)
    compared = 0
    for begin, length in parts:
        for period in range(length // T + 1):
            for s, x in var:
                c = period * T + s
                if c + x + late >= length + (late if begin == parts[-1][0] else 0):
                    continue
                want = rows[begin + c + depth]["p_0_in"]
                is_ = got[begin + c + x + late]["p_0_out"]
                if is_ != want:
                    raise Violation("wrong-word", f"{t['kind']}: variable ({s}, {x}) of period {period}: {is_}, written "
                                    f"{want}", "x" if is_ is None else "value")
                compared += 1
    cov.log(t["kind"], T, len(var), compared)
    cov.state(t["kind"], t["sync"], t["mux"], var)
    if memory and t["reset"]:
        cov.fault("reset-midway", len(t["reset"]))
    if t["wait"]:
        cov.fault("late-enable", len(parts))
    cov.fault("garbage-in-idle-cycles", sum(length for _, length in parts) - compared)
    cov.probe("compared", compared)
    if compared >= 3:
        cov.nontrivial.add(hash_key((cov.digest()[:16],)))


def simplify(t):
    for k, v in (("mux", None), ("sync", True), ("wait", 0), ("rst", 1), ("wl", 4), ("en_rst", False), ("n", 3)):
        if t[k] != v and not (k == "mux" and not t["sync"]):
            yield dict(t, **{k: v})
    if t["items"]:
        for i, (s, x) in enumerate(t["items"]):
            if x > 0:
                yield dict(t, items=[*t["items"][:i], [s, x - 1], *t["items"][i + 1:]])


SHRINK_LISTS = {"items", "reset"}
