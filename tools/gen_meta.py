"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing it."""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "lib/b_asic/"
P = []


def prop(id, title, statement, over, text, why, files, mech, level="exploration",
         technique="", note="", state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[L + f for f in files],
                  mech=[{"name": n, "where": L + w} for n, w in mech],
                  level=level, technique=technique, note=note, state=state,
                  observe=observe, na=na))


prop("P01", "Simulation results do not depend on how, or with what failures, it was run",
     "For any signal-flow graph and any sequence of stepping, running, input changes and state or result clearing, "
     "a simulation's outputs, saved results and iteration count equal those of evaluating every operation once per "
     "iteration with each delay handing on its previous-iteration value from its initial value. An iteration that "
     "fails because an input function or an operation raises leaves the iteration count, delay state and saved results "
     "as before it, so a retry continues as if it had not failed. Simulations are independent of each other and of "
     "later changes to the graph they were made from.",
     ["programs", "inputs", "histories", "fault_sequences"],
     "All SFGs (loops, nested SFGs, initial values), input providers, histories of calls on one or more simulations "
     "and failure points of providers and operations.",
     "The tests run a handful of fixed SFGs straight through; no test makes an iteration fail and goes on, mixes "
     "stepping styles or steps one simulation from the provider of another.",
     ["simulation.py", "sfg.py", "special_operations.py", "core_operations.py"],
     [("iteration loop and delay commit", "simulation.py Simulation.run_until"),
      ("nested evaluation", "sfg.py SFG.evaluate_output")],
     technique="deterministic simulation: seeded call histories with injected provider/operation failures and "
               "re-entrant stepping, against an executable reference netlist",
     note="Seeded search, no exhaustiveness. Fixed-point runs use a fault-free fresh simulation as the reference; "
          "nested SFGs are only run without a data type.")

prop("P02", "Editing a schedule never changes what it computes",
     "Take a legal schedule of a signal-flow graph and apply any sequence of accepted edits (moving operations within "
     "or across the period, as late or as early as possible, moving rows, rotating, changing the period or the time "
     "resolution, swapping commutative inputs, changing execution times). Executing the edited schedule cycle by cycle, "
     "with every operation starting at its start time in every period and every value read when its consumer starts, "
     "never reads a value before it is produced and yields the output sequences of the original graph, and the graph "
     "reconstructed from the schedule is equivalent to the original.",
     ["programs", "histories", "schedules"],
     "All SFGs with delays, latencies and offsets, all initial schedules, all edit sequences.",
     "Tests apply one or two fixed edits to small filters and compare start times; none executes the edited schedule.",
     ["schedule.py"],
     [("edit operations and lap bookkeeping", "schedule.py Schedule.move_operation, rotate_*, set_schedule_time, ..."),
      ("delay re-insertion", "schedule.py Schedule.sfg")],
     technique="deterministic simulation: seeded edit histories on real Schedule objects, each state executed by a "
               "clocked reference machine",
     note="Seeded search. Delay initial values are 0 in these runs (a schedule does not keep them).")

prop("P03", "A rejected schedule edit leaves the schedule as it was",
     "Whenever an edit of a schedule raises (a move outside the slack, a period below the minimum, an indivisible time "
     "resolution, a too short execution time, an unknown operation), start times, laps, period, row positions and "
     "resource timing data are exactly what they were before the call. Every edit that is offered as possible "
     "(within the reported slack, listed as a possible resolution) is accepted.",
     ["histories", "inputs"],
     "All schedules and all edit sequences interleaving accepted and rejected edits.",
     "Tests check that an error is raised for single fixed cases, not that the object is unharmed and still usable.",
     ["schedule.py"],
     [("validation before mutation", "schedule.py Schedule.move_operation, set_schedule_time, decrease_time_resolution")],
     technique="deterministic simulation: seeded histories of valid and invalid edits with full before/after "
               "comparison of the observable state",
     note="Seeded search.")

prop("P04", "Every scheduler returns a legal schedule that respects its constraints",
     "For every graph and constraint set (resource counts, read/write limits, period, input/output times, cyclic or "
     "not), each scheduler either raises or returns, within bounded work, a schedule that starts every operation, "
     "reads no value before it is produced, and preserves what the graph computes. In that schedule no clock cycle "
     "modulo the period uses more resources of a type, or more memory reads or writes, than the given limits, and "
     "given input and output times hold. A request without limits or times on an acyclic graph is never refused.",
     ["programs", "configurations", "schedules"],
     "All SFGs, latency/execution-time assignments, scheduler kinds, sort keys and constraint combinations, under all "
     "set-iteration orders.",
     "Tests compare start-time tables for a few known filters and FFTs; none executes the schedule or counts resource "
     "use per cycle on arbitrary graphs.",
     ["scheduler.py", "schedule.py"],
     [("schedulers", "scheduler.py ASAPScheduler ... RecursiveListScheduler"),
      ("priority and legality tests", "scheduler.py ListScheduler")],
     technique="deterministic simulation: seeded graphs, constraints and set-iteration orders; the resulting schedule "
               "is executed by a clocked machine with per-cycle resource accounting",
     note="Seeded search; bounded work is a CPU budget far above the normal cost.")

prop("P05", "ILP scheduling never returns a broken schedule, whatever the solver does",
     "When the external solver of the ILP scheduler fails, stops early, reports infeasibility, returns no values, "
     "suboptimal values or values with rounding noise, scheduling either raises or yields a schedule that satisfies the "
     "same legality and resource guarantees as any other scheduler. An injected solver failure never leaves a schedule "
     "that lacks operations.",
     ["programs", "configurations", "fault_sequences"],
     "All graphs and constraints, times all solver outcomes.",
     "Tests only ever see a solver that succeeds.",
     ["scheduler.py"],
     [("solver status check and solution read-out", "scheduler.py ILPScheduler")],
     technique="deterministic simulation with a simulated solver behind the pulp solver interface injecting failures",
     note="The solver is real CBC behind a seam, or a stub replaying its answer with faults.")

prop("P06", "Extracted memory variables and processes carry exactly the scheduled values",
     "For every schedule, the extracted memory variables and operation processes match its cycle-by-cycle execution: "
     "each value an operation produces is written at its production time and read by exactly its consumers at their "
     "start times modulo the period, with none missing, added or shifted. Splitting a set of variables by read or write "
     "times, or by a lifetime limit, keeps every value reachable at the same times.",
     ["programs", "schedules"],
     "All schedules reached by scheduling and editing.",
     "Tests check the number of variables on a few filters.",
     ["schedule.py", "process.py", "resources.py"],
     [("variable extraction", "schedule.py Schedule.get_memory_variables, get_operations"),
      ("lifetime splitting", "resources.py ProcessCollection.split_on_length, process.py MemoryVariable.split_on_length")],
     technique="deterministic simulation: a memory machine executes the extracted processes cycle by cycle",
     note="Seeded search.")

prop("P07", "Splitting a process collection loses nothing and creates no conflict",
     "Splitting a collection of processes for execution time, port limits or cell sharing, with any heuristic, "
     "processing order and solver behaviour, either raises or returns collections that together hold every process "
     "exactly once. Within each part no two processes overlap in the cyclic period beyond what the split allows "
     "(execution time), and no cycle exceeds the read, write and total port limits.",
     ["inputs", "configurations", "fault_sequences"],
     "All process collections, periods, heuristics, port limits, iteration orders and solver outcomes.",
     "Tests check part counts for a few fixed collections with a working solver.",
     ["resources.py"],
     [("graph colouring and ILP splits", "resources.py ProcessCollection.split_*"),
      ("exclusion and conflict graphs", "resources.py ProcessCollection.create_exclusion_graph_*")],
     technique="deterministic simulation: seeded collections, iteration orders and solver faults; a cycle-by-cycle "
               "port and occupancy machine as the oracle",
     note="Seeded search.")

prop("P08", "Joint resource assignment is complete and legal, even if the solver fails",
     "Joint assignment of operations and memories to resources returns processing elements and memories that together "
     "hold every operation and every memory variable exactly once (or as a direct connection), never exceed the "
     "requested resource, memory and port counts, and never overlap in time on one resource. If the solver fails, is "
     "interrupted or reports infeasibility, the call raises or returns an assignment with the same guarantees, and "
     "leaves no temporary files behind. With a working solver the graph-colouring ILP uses the fewest resources.",
     ["programs", "configurations", "fault_sequences", "crash_points"],
     "All scheduled graphs, strategies, limits, solver outcomes and interrupt points.",
     "Tests run a few fixed schedules with a working solver and no interruption.",
     ["resource_assigner.py", "resources.py"],
     [("strategies and interrupt recovery", "resource_assigner.py assign_processing_elements_and_memories")],
     technique="deterministic simulation with a simulated solver (failures, interruption at every stage, stale "
               "solution files) and a cycle-level occupancy oracle",
     note="Seeded search.")

prop("P09", "Architecture edits keep every process on exactly one resource",
     "Under any sequence of architecture edits (moving processes, removing resources, assigning and clearing, renaming) "
     "each process of the design stays on exactly one resource, and an edit that raises changes nothing. After every "
     "edit the reported resources, direct connections and input and output multiplexing match the routing implied by "
     "the current process placement.",
     ["programs", "histories"],
     "All architectures built from scheduled graphs, all edit histories.",
     "Tests move one process on one architecture.",
     ["architecture.py"],
     [("move/remove/assign", "architecture.py Architecture.move_process, remove_resource, Resource.assign")],
     technique="deterministic simulation: seeded edit histories with failing edits, placement and routing recomputed "
               "by an independent model",
     note="Seeded search.")

prop("P10", "Memory cell assignment never overwrites a value that is still needed",
     "For any collection of memory variables, the cell assignment of a memory and the forward-backward register "
     "allocation, executed cyclically for several periods, deliver to every read the value written for it in that "
     "iteration. No cell is overwritten while its value is still to be read, and all variables are placed.",
     ["inputs", "configurations", "schedules"],
     "All cyclic variable collections, heuristics and iteration orders.",
     "Tests compare a few tables for matrix transposition.",
     ["resources.py", "architecture.py"],
     [("cell assignment", "resources.py ProcessCollection.split_on_execution_time"),
      ("forward-backward allocation", "resources.py _ForwardBackwardTable")],
     technique="deterministic simulation: a cyclic memory machine executes the allocation",
     note="Seeded search.")

prop("P11", "Generated hardware computes its schedule, through stalls and resets",
     "The hardware description generated for any assigned architecture, simulated clock by clock, produces for every "
     "input stream the output stream of the scheduled graph in its fixed-point arithmetic, in the cycles the schedule "
     "gives. Pausing the enable at arbitrary cycles only delays that stream, and after a reset the stream starts anew.",
     ["programs", "schedules", "configurations", "fault_sequences"],
     "All architectures from generated schedules and assignments, generator options, stall patterns and reset points.",
     "The code generation tests run a few designs with the enable constantly on and one reset at the start.",
     ["code_printer/vhdl/vhdl_printer.py", "code_printer/vhdl/memory_storage.py", "architecture.py"],
     [("architecture, memory and operation printers", "code_printer/vhdl/")],
     technique="deterministic simulation: generated RTL in GHDL under a seeded clock/enable/reset driver",
     note="Seeded search; GHDL is trusted.")

prop("P12", "Generated standalone storage delivers every variable at its read times",
     "The memory-based and register-based storage generated for any cyclic collection that writes and reads at most one "
     "variable per cycle, simulated clock by clock, gives from its first enabled cycle at every read time of every "
     "period the word that was on the input at that variable's write time, at one fixed latency per configuration, "
     "for every generator option and also after resets. A collection that needs more ports than given is refused, "
     "and the generated transposers and interleavers are the permutations they are documented to be.",
     ["inputs", "configurations", "fault_sequences"],
     "All single-port variable collections, allocations, address pipelining and synchronisation options, reset points.",
     "The unit tests generate a few transposition matrices and never simulate them.",
     ["research/interleaver_codegen.py", "research/interleaver.py", "resources.py"],
     [("storage generation", "resources.py ProcessCollection.generate_memory_based_storage_vhdl, "
       "generate_register_based_storage_vhdl"),
      ("architecture writers", "research/interleaver_codegen.py")],
     technique="deterministic simulation: generated RTL in GHDL under a seeded driver against a cyclic memory model",
     note="Seeded search; GHDL is trusted.")

prop("P13", "Saved signal-flow graphs and schedules reload as what was saved",
     "Any signal-flow graph or schedule written to a file or text and loaded again computes the same outputs and has "
     "the same operations, parameters, timing, start times, laps, period and cyclicity. If the file was torn, cut short, "
     "or the write failed, loading raises or returns exactly what was saved, never a different design presented as good.",
     ["programs", "crash_points", "fault_sequences"],
     "All SFGs and schedules, all truncation and write-failure points.",
     "Tests round-trip a few SFGs over a healthy file system; schedules are not reloaded.",
     ["save_load_structure.py"],
     [("writer", "save_load_structure.py sfg_to_python, schedule_to_python"),
      ("reader", "save_load_structure.py python_to_sfg")],
     technique="deterministic simulation: simulated file faults (torn, short, failed writes) around real save/load",
     note="Seeded search.")

prop("P15", "Transforming a graph never harms the original nor changes what it computes",
     "Any sequence of graph transformations (copying, replacing, inserting and removing operations, swapping inputs, "
     "simplifying delays, unfolding, flattening, expanding, rewriting, joining, extracting) yields a graph that computes the documented result, "
     "and leaves the graph it was applied to, if documented as returning a new graph, exactly as before. This holds "
     "also if a transformation raises or is interrupted at any point.",
     ["programs", "histories", "crash_points"],
     "All SFGs, transformation sequences and interruption points.",
     "Tests apply single transformations to fixed graphs and rarely look at the original afterwards.",
     ["sfg.py", "core_operations.py"],
     [("copy-then-edit transformations", "sfg.py SFG.*")],
     technique="deterministic simulation: seeded transformation histories with interruption at seeded trace points",
     note="Seeded search; interruption points are Python line events.")

prop("P18", "The scheduler window always shows, keeps legal and logs the schedule it edits",
     "Whatever sequence of mouse, menu, toolbar and file events the scheduler window receives (interleaved, lost or "
     "failing), no event raises, the schedule it edits stays legal, the operations, lines, axis and information table show that "
     "schedule, and replaying the commands it logs on a copy of the opened schedule gives the same schedule. A save or load "
     "that fails changes nothing in the window.",
     ["histories", "fault_sequences"],
     "All schedules, event sequences and file faults.",
     "Tests open one schedule and click a few buttons.",
     ["scheduler_gui/main_window.py", "scheduler_gui/scheduler_event.py", "scheduler_gui/scheduler_item.py",
      "scheduler_gui/axes_item.py", "scheduler_gui/operation_item.py", "scheduler_gui/signal_item.py"],
     [("drag and time-line events", "scheduler_gui/scheduler_event.py SchedulerEvent"),
      ("drawing", "scheduler_gui/scheduler_item.py SchedulerItem"),
      ("file and menu actions", "scheduler_gui/main_window.py ScheduleMainWindow")],
     technique="deterministic simulation: seeded event histories against the real window on Qt's offscreen platform, with lost and interleaved events and file faults",
     note="Seeded search; context menu, dialogs and disk are stubs, rendering of pixels is not judged.")

# Pure functions of their arguments
for id_, title, st, files in [
    ("P30", "Quantization follows the chosen overflow and rounding mode",
     "Quantizing a value with a given word length, rounding and overflow mode returns the value defined by that mode.",
     ["quantization.py"]),
    ("P31", "Filter and transform generators implement their transfer functions",
     "A graph produced by a filter, transform or factorisation generator has the transfer function it is named after.",
     ["sfg_generators"]),
    ("P32", "Analyses report the graph's true bounds",
     "Iteration period bound, critical path, critical loops and state space reported for a graph are those of the graph.",
     ["sfg.py"]),
    ("P33", "Signal generators produce their defined sequences",
     "A signal generator called with a time index returns the value its definition gives, also when combined by arithmetic.",
     ["signal_generator.py"]),
]:
    prop(id_, title, st, ["inputs"], "All arguments.", "Tests sample a few arguments.", files,
         [("direct computation", files[0])],
         na="A pure function of its arguments: no concurrency, time, I/O, history or multi-party behaviour for a "
            "simulator to schedule or fault, so the family has nothing to decide it with.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"],
                            **({"observe_at": p["observe"]} if p["observe"] else {}),
                            "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        built = os.path.exists(os.path.join(HERE, "dst", "props", p["id"].lower() + ".py"))
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not built:
            na.append({"property": p["id"], "reason": "its simulation is not built yet"})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
            })
    m = {
        "version": 1,
        "setup_cmd": "./setup",
        "hooks": {"guard": "none", "enable": "no hooks: every seam is installed from outside /repo",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "One simulator (dst/), one module per property (dst/props/). ./replay FILE re-executes a replay "
                 "file. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
