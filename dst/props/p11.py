"""P11: generated hardware computes its schedule, through stalls and resets."""

from __future__ import annotations

import copy
import os
import random
import shutil
import tempfile

from dst import edits, fixed, gen, machine, rtl, sched
from dst.core import InvalidTrace, Violation
from dst.props import p09

EPISODES = {"quick": 2500, "thorough": 60000}
RULE = (
    "one run = one architecture (random scheduled SFG, random elements, memories and code options) as VHDL, "
    "driven for several periods with a random input stream, enable pauses, input garbage and resets; "
    "distinct = distinct trace in which at least 3 samples of an output were compared"
)
REAL = ["b_asic.code_printer (all VHDL of the design)", "b_asic.architecture", "b_asic.schedule", "b_asic.resources",
        "GHDL 4.1 as the hardware"]
STUB = ["clock, enable, reset and inputs: a test bench that plays the trace", "don't-cares: seeded bits"]
ASSUMPTIONS = ["GHDL executes VHDL correctly", "inputs are 0 during the first reset if the graph has a loop"]
TIME_UNIT = "clock cycles"
STATE_MEASURE = "hash of (design options, enable pattern of one period)"

REAL_T = ["add", "addsub", "addsub", "cmul", "cmul", "sym2p", "shiftaddsub",
          "mads", "mads", "rec"]
CPLX_T = ["addsub", "addsub", "cmul", "cmul", "shiftaddsub"]
MUL = [0.5, -0.5, 0.25, 0.75, -0.75, 1, -1, 0, 1.5, -1.25, 2]


def params(rng, t, cplx):
    so = rng.choice([0, 0, 0, 1, 2])
    if t == "add":
        return {"mul_j": False, "shift_output": so}
    if t == "addsub":
        return {"is_add": rng.random() < 0.5, "mul_j": cplx and rng.random() < 0.4, "shift_output": so}
    if t == "shiftaddsub":
        return {"is_add": rng.random() < 0.5, "shift": rng.randint(0, 2),
                "mul_j": cplx and rng.random() < 0.4, "shift_output": so}
    if t == "cmul":
        return {"value": rng.choice(MUL)}
    if t in ("mads", "rec"):
        return gen.params_for(rng, t)
    return {"value": rng.choice([-1, -0.75, -0.5, 0, 0.25, 0.5, 0.875, 1])}


def generate(rng, index, tier):
    cplx = rng.random() < 0.25
    while True:
        g = sched.random_timed(rng, rng.randint(1, 6), types=CPLX_T if cplx else REAL_T, delay_prob=0.3,
                               sink_prob=0, const_prob=0, loop_prob=rng.choice([0, 0.5]))
        if all(n["t"] != "sink" for n in g["spec"]["nodes"]):
            break
    kinds = rng.choice([["any"], ["real"], ["imag"], ["real", "imag"]])
    for n in g["spec"]["nodes"]:
        if n["p"]:
            n["p"] = params(rng, n["t"], cplx)
            if n["t"] == "cmul" and cplx:
                k = rng.choice(kinds)
                v = [rng.choice(MUL), rng.choice(MUL)]
                n["c"] = [v[0] if k != "imag" else 0, v[1] if k != "real" else 0, rng.random() < 0.2]
    for tm in g["timing"].values():
        lat = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
        first = rng.choice([0, 0, 0, 0, 1, 2])
        tm["lat"] = {k: first + lat if k.startswith("out") else first for k in tm["lat"]}
        tm["ex"] = rng.choice([1, 1, 1, 2])
    if rng.random() < 0.05:
        tm = rng.choice(list(g["timing"].values()))
        k = rng.choice(sorted(tm["lat"]))
        tm["lat"][k] += 1
    busy = rng.choice([0, 0.5, 1, 1.5])
    wl = rng.choice([[1, 5], [2, 4], [1, 7], [3, 3], [4, 0], [2, 7]])
    t = {
        "g": g,
        "cplx": cplx,
        "first": edits.first_schedule(rng),
        "hist": edits.gen_history(rng, g["spec"], rng.randint(0, 5), 0),
        "chain": rng.random() < 0.25,
        "pe": rng.randrange(10**6),
        "spread": rng.random().__round__(2),
        "register": rng.random() < 0.3,
        "crowd": rng.random() < 0.05,
        "how": rng.choice(["left_edge", "greedy_graph_color"]),
        "dt": {"wl": wl, "iwl": wl, "owl": wl,
               "q": rng.choice(["trunc", "trunc", "mag", "zero"]), "o": rng.choice(["wrap", "wrap", "sat"])},
        "opt": {k: rng.random() < p * busy for k, p in (
            ("input_register", 0.25), ("output_register", 0.25), ("multiplexer_control_registered", 0.3),
            ("no_enable", 0.15), ("pipeline_pe_control", 0.25), ("pipeline_mem_control", 0.25),
            ("no_output_sync", 0.3), ("pipeline_output_mux", 0.3), ("pipeline_back_edge_mux", 0.3))},
        "split": rng.random().__round__(2) if rng.random() < 0.3 else None,
        "tie": rng.choice(["0", "1", "r", "r"]),
        "rst": [rng.random() < 0.2 for _ in range(rng.randint(1, 3))],
        "n": rng.randint(4, 12),
        "warm": rng.random() < 0.5,
        "pause": [],
        "reset": [],
        "quiet": rng.random() < 0.5,
        "noise": rng.randrange(10**6),
        "edge": rng.choice([0, 0.3, 0.8]),
    }
    if rng.random() < 0.3:
        t["dt"]["iwl"] = [rng.randint(1, wl[0]), wl[1] if rng.random() < 0.9 else rng.randint(0, wl[1])]
    if rng.random() < 0.3:
        t["dt"]["owl"] = [rng.randint(1, wl[0] + 1), rng.randint(0, wl[1] + 2)]
    if rng.random() < 0.6:
        t["pause"] = [[rng.randint(0, 60), rng.choice([1, 1, 1, 2, 3, 7])] for _ in range(rng.randint(1, 12))]
    if rng.random() < 0.25:
        t["reset"] = [[rng.randint(1, 60), rng.randint(1, 2), rng.random() < 0.5]]
    return t


def design(t, cov):
    """The architecture of a trace, its schedule and the period."""
    from b_asic.architecture import Architecture, Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    t = copy.deepcopy(t)
    g = t["g"]
    for n in g["spec"]["nodes"]:
        if "c" in n:
            n["p"] = {"value": complex(*n["c"][:2]) if n["c"][1] or n["c"][2] else n["c"][0]}
    if any(max(v for k, v in tm["lat"].items() if k.startswith("in"))
           > min(v for k, v in tm["lat"].items() if k.startswith("out")) for tm in g["timing"].values()):
        raise InvalidTrace
    if not t["rst"] or any(n["t"] == "sink" for n in g["spec"]["nodes"]):
        raise InvalidTrace
    ses = edits.Session(dict(t, stim=[]), cov)
    s = ses.sch
    if s is None or s.schedule_time == 0:
        raise InvalidTrace
    for h in t["hist"]:
        try:
            ses.apply(h)
        except Violation:
            raise InvalidTrace from None
    T = s.schedule_time
    ops = s.get_operations()
    if any(p.execution_time > T for p in ops):
        raise InvalidTrace
    rng = random.Random(t["pe"])
    pes = []
    for part in p09.alike(ops):
        for part in part.split_on_execution_time():
            procs = sorted(part, key=lambda p: p.operation.graph_id)
            while procs:
                k = rng.randint(1, len(procs)) if rng.random() < t["spread"] else len(procs)
                pes.append(ProcessingElement(ProcessCollection(procs[:k], T, ops._cyclic), f"pe{len(pes)}"))
                procs = procs[k:]
    direct, mv = s.get_memory_variables().split_on_length()
    if t["chain"] or any(v.execution_time > T for v in mv):
        mv = mv.split_into_chains()
    if any(v.execution_time > T for v in mv):
        raise InvalidTrace
    groups: list[list] = []
    for v in sorted(mv, key=lambda v: v.name):
        w, r = v.start_time % T, {x % T for x in v.read_times}
        for grp in groups:
            if rng.random() < t["spread"]:
                continue
            if t.get("crowd") or all(w != x.start_time % T and not r & {y % T for y in x.read_times} for x in grp):
                grp.append(v)
                break
        else:
            groups.append([v])
    mems = []
    for i, grp in enumerate(groups):
        kind = "register" if t["register"] and rng.random() < 0.5 else "RAM"
        m = Memory(ProcessCollection(grp, T, True), kind, f"mem{i}")
        try:
            m.assign(t["how"])
        except ValueError:
            if kind == "RAM":
                raise
            cov.probe("register-allocation-refused")  # P10: a heuristic
            m = Memory(ProcessCollection(grp, T, True), "RAM", f"mem{i}")
            m.assign(t["how"])
        mems.append(m)
    return Architecture(pes, mems, entity_name="design", direct_interconnects=direct), s, T


def data_type(t):
    from b_asic.data_type import DataType
    from b_asic.quantization import OverflowMode, QuantizationMode

    d = t["dt"]
    return DataType(
        tuple(d["wl"]), tuple(d["iwl"]), tuple(d["owl"]), is_complex=t["cplx"],
        quantization_mode={"trunc": QuantizationMode.TRUNCATION, "mag": QuantizationMode.MAGNITUDE_TRUNCATION,
                           "zero": QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION}[d["q"]],
        overflow_mode={"wrap": OverflowMode.WRAPPING, "sat": OverflowMode.SATURATION}[d["o"]],
    )


def sources(arch, t, kw):
    """The generated files, in compile order, with their don't-cares resolved."""
    from b_asic.code_printer import VhdlPrinter

    printer = VhdlPrinter(data_type(t))
    d = tempfile.mkdtemp(prefix="dst-rtl-")
    try:
        printer.print(arch, path=d, **kw)
        rng = random.Random(t["noise"])
        out = []
        for n in printer.get_compile_order(arch):
            with open(os.path.join(d, n)) as f:
                out.append((n, rtl.tie(f.read(), rng, t["tie"])))
        return out
    finally:
        shutil.rmtree(d)


def print_options(t, arch):
    o = t["opt"]
    kw = {k: True for k in ("input_register", "output_register", "multiplexer_control_registered",
                            "pipeline_pe_control", "pipeline_mem_control", "pipeline_output_mux",
                            "pipeline_back_edge_mux") if o[k]}
    if o["no_enable"]:
        kw["enable_pin"] = False
    if o["no_output_sync"]:
        kw["output_sync"] = False
    if t["split"] is not None:
        rng = random.Random(t["pe"] + 1)
        kw["pe_registers"] = {}
        for pe in arch.processing_elements:
            lat = pe._latency
            if lat and rng.random() < 0.7:
                a = rng.randint(0, lat)
                kw["pe_registers"][pe.entity_name] = (a, lat - a)
    return kw


def drive(t, T, enable):
    """
    The clock periods of the run as rows for the test bench, and for each of its parts (from one
    reset to the next) the clock period in which each cycle of the schedule is enabled.
    """
    rows, runs = [], []
    pauses: dict = {}
    for at, k in t["pause"]:
        pauses[at] = pauses.get(at, 0) + k
    pre = t["rst"]
    for at, k, en in [*sorted(t["reset"]), (None, 0, False)]:
        for e in pre:
            rows.append({"rst": 1, "en": int(e)})
        clocks = []
        for c in range(t["n"] * T if at is None else at):
            for _ in range(pauses.pop(c, 0) if enable else 0):
                rows.append({"rst": 0, "en": 0})
            clocks.append(len(rows))
            rows.append({"rst": 0, "en": 1})
        runs.append(clocks)
        pre = [en] * k
    rows += [{"rst": 0, "en": 1} for _ in range(4)]
    return rows, runs


def execute(t, cov):
    from b_asic.special_operations import Input, Output

    arch, s, T = design(t, cov)
    plan = machine.read(s)
    kw = print_options(t, arch)
    o = t["opt"]
    enable = not o["no_enable"]
    wl, iwl, owl = (tuple(t["dt"][k]) for k in ("wl", "iwl", "owl"))
    uneven = any(len({v for k, v in tm["lat"].items() if k.startswith(x)}) > 1
                 for tm in t["g"]["timing"].values() for x in ("in", "out"))
    try:
        files = sources(arch, t, kw)
    except ValueError:
        if uneven or any(m.input_count > 1 or m.output_count > 1 for m in arch.memories):
            cov.probe("refused")  # documented limits of the hardware
            return
        raise
    cov.log("files", len(files), sorted(kw))
    # the interface
    ib, ob = sum(iwl), sum(owl)
    parts = ("_re", "_im") if t["cplx"] else ("",)
    ins = {"rst": 0}
    if enable:
        ins["en"] = 0
    outs = {}
    reads, writes = {}, {}  # (element, cycle mod T) -> operation name; name -> element
    for pe in arch.processing_elements:
        if pe.operation_type is Input:
            for x in parts:
                ins[f"{pe.entity_name}_0_in{x}"] = ib
            for p in pe.collection:
                reads[pe.entity_name, plan.ops[p.operation.name]["s"] % T] = p.operation.name
        elif pe.operation_type is Output:
            for x in parts:
                outs[f"{pe.entity_name}_0_out{x}"] = ob
            for p in pe.collection:
                writes[p.operation.name] = pe.entity_name
    loop = has_loop(plan)
    quiet = loop or t["quiet"]
    registered = any(o[k] for k in ("multiplexer_control_registered", "pipeline_pe_control", "pipeline_mem_control",
                                    "pipeline_output_mux", "pipeline_back_edge_mux"))
    # Unused values are don't-cares, which stay zero at will only: otherwise an enabled reset may
    # leave them behind. Registered control signals are not valid in the first cycle. Zeros pass
    # that if the registers have been clocked during reset.
    zero = quiet and (t["tie"] == "0" or (enable and not any(t["rst"])))
    warm = registered and quiet and t["tie"] == "0" and t["warm"] and not o["input_register"]
    late = o["input_register"] and not enable  # the first cycle passes on what the register held
    if late:
        zero = zero and t["warm"]
    if warm or (late and zero):
        most = max((pe._latency for pe in arch.processing_elements), default=0)
        t = dict(t, rst=[True] * (most + 6))
    rows, runs = drive(t, T, enable)
    zeros = runs[0][min(T, len(runs[0])) - 1] if warm else len(t["rst"]) - 1 if quiet else -1
    rng = random.Random(t["noise"] + 13)

    def garbage():
        edge = t.get("edge") and rng.random() < t["edge"]
        return rng.choice([0, 1, (1 << ib) - 1, 1 << (ib - 1), (1 << (ib - 1)) - 1]) if edge else rng.getrandbits(ib)

    elements = sorted({e for e, _ in reads})
    for i, r in enumerate(rows):
        for e in elements:
            for x in parts:
                r[f"{e}_0_in{x}"] = garbage() if i > zeros else 0
    # What each instance of each input reads
    streams, raw_streams = [], []
    lag = 1 if o["input_register"] else 0
    for clocks in runs:
        fed, raw = {}, {}
        for c, clk in enumerate(clocks):
            for e in elements:
                nm = reads.get((e, c % T))
                if nm is not None:
                    k = (c - plan.ops[nm]["s"]) // T
                    v = tuple(rtl.signed(rows[clk][f"{e}_0_in{x}"], ib) for x in parts)
                    for d, frac in ((fed, iwl[1]), (raw, wl[1])):
                        u = tuple(fixed.cast(q, frac, wl, "trunc", t["dt"]["o"]) for q in v)
                        d[nm, k] = u if t["cplx"] else u[0]
        streams.append(fed)
        raw_streams.append(raw)
    got = rtl.run(files, "design", ins, outs, rows, cov)
    # Arithmetic
    pe_frac = {}
    for pe in arch.processing_elements:
        vals = [complex(p.operation.params["value"]) for p in pe.collection if "value" in p.operation.params]
        k = max((fixed.frac_bits(q) for v in vals for q in (v.real, v.imag)), default=0)
        for p in pe.collection:
            pe_frac[p.operation.name] = k
    ar = fixed.Arith(wl, t["dt"]["q"], t["dt"]["o"], t["cplx"], pe_frac)
    depth = memory_of(plan) if not loop else None

    def compare(fed_streams):
        compared = 0
        for j, (clocks, fed) in enumerate(zip(runs, fed_streams, strict=True)):
            want = compute(plan, ar, fed, len(clocks), T, t)
            strict = j == 0 and (warm or (zero and not registered))
            for nm, e in writes.items():
                st = plan.ops[nm]["s"]
                k = -1
                while True:
                    k += 1
                    c = st + k * T
                    if c >= len(clocks) - lag - 1:
                        break
                    if not strict:
                        if loop:
                            break  # whatever was left stays in the loop
                        if k < depth + 2:
                            continue
                    clk = shown(clocks, c, rows, o)
                    if clk is None:
                        break
                    exp = want[nm, k]
                    exp = exp if t["cplx"] else (exp,)
                    exp = tuple(fixed.cast(q, wl[1], owl, t["dt"]["q"], t["dt"]["o"]) for q in exp)
                    res = tuple(rtl.signed(got[clk][f"{e}_0_out{x}"], ob) for x in parts)
                    if res != exp:
                        raise Violation("wrong-output", f"{nm} instance {k} (cycle {c}, clock {clk}): {res}, the schedule "
                                        f"computes {exp}", "x" if None in res else "value")
                    compared += 1
        return compared

    try:
        compared = compare(streams)
    except Violation as e:
        if iwl[1] == wl[1] or e.key == "x":
            raise
        try:
            compare(raw_streams)
        except Violation:
            raise e from None
        raise Violation("input-alignment", f"inputs of {iwl} are taken as {wl} without moving the point",
                        "input-fraction") from None
    cov.log("runs", [len(c) for c in runs], compared)
    if t["pause"] and enable:
        cov.fault("enable-paused", len(t["pause"]))
    if t["reset"]:
        cov.fault("reset-midway", len(t["reset"]))
    cov.fault(f"dont-care-{t['tie']}")
    cov.probe("compared", compared)
    cov.state(sorted(kw), [r["en"] for r in rows][: 3 * T])
    if compared >= 3:
        cov.nontrivial.add(cov.digest()[:16])


def shown(clocks, c, rows, o):
    """The clock period in which the output of scheduled cycle c is visible."""
    clk = clocks[c]
    if o["input_register"]:
        clk += 1
    if o["output_register"]:
        clk += 1
    return clk if clk < len(rows) else None


def has_loop(plan):
    state: dict = {}

    def visit(n):
        state[n] = 1
        for i in range(len(plan.ops[n]["ins"])):
            m = plan.edges[n, i][0]
            if state.get(m) == 1 or (m not in state and visit(m)):
                return True
        state[n] = 2
        return False

    return any(n not in state and visit(n) for n in list(plan.ops))


def memory_of(plan):
    """The number of earlier periods an output depends on."""
    memo: dict = {}

    def visit(n):
        if n not in memo:
            memo[n] = max((machine.eff(plan, plan.edges[n, i]) + visit(plan.edges[n, i][0])
                           for i in range(len(plan.ops[n]["ins"]))), default=0)
        return memo[n]

    return max(visit(n) for n in plan.ops)


def compute(plan, ar, fed, cycles, T, t):
    """Values of the outputs by (name, instance): the schedule graph from a zero state."""
    memo: dict = {}
    zero = (0, 0) if t["cplx"] else 0

    def val(n, k, port):
        if k < 0:
            return zero
        if (n, k) not in memo:
            op = plan.ops[n]
            if op["t"] == "in":
                memo[n, k] = (fed.get((n, k), zero),)
            else:
                vals = []
                for i in range(len(op["ins"])):
                    e = plan.edges[n, i]
                    vals.append(val(e[0], k - machine.eff(plan, e), e[1]))
                memo[n, k] = (vals[0],) if op["t"] == "out" else ar.op(n, op["t"], op["p"], vals)
        return memo[n, k][port]

    out = {}
    for k in range(cycles // T + 1):
        for n, op in plan.ops.items():
            if op["t"] == "out":
                out[n, k] = val(n, k, 0)
    return out


def simplify(t):
    for g in sched.simplify_graph(t["g"]):
        yield dict(t, g=g)
    for name, tm in t["g"]["timing"].items():
        if tm["lat"]["out0"] > 0:
            lat = {k: max(v - 1, 0) for k, v in tm["lat"].items()}
            yield dict(t, g=dict(t["g"], timing=dict(t["g"]["timing"], **{name: dict(tm, lat=lat)})))
    for k, v in t["opt"].items():
        if v:
            yield dict(t, opt=dict(t["opt"], **{k: False}))
    for k, v in (("split", None), ("register", False), ("chain", False), ("tie", "0"), ("spread", 0), ("rst", [False])):
        if t[k] != v:
            yield dict(t, **{k: v})
    d = t["dt"]
    for k, v in (("q", "trunc"), ("o", "wrap"), ("iwl", d["wl"]), ("owl", d["wl"])):
        if d[k] != v:
            yield dict(t, dt=dict(d, **{k: v}))


SHRINK_LISTS = {"hist", "pause", "reset", "rst"}
