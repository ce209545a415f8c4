"""The simulated ILP solver: CBC behind pulp's solver interface, with its answer altered."""

from __future__ import annotations

import random


class InjectedInterrupt(KeyboardInterrupt):
    """The user interrupts the solver."""


# Outcomes after which the model has a feasible point, up to the solver's tolerance
GOOD = ("ok", "noise", "subopt", "incumbent")
FAULTS = ["noise", "subopt", "incumbent", "infeasible", "unbounded", "undefined", "notsolved",
          "partial", "raise", "interrupt"]
STATUS = {"infeasible": -1, "unbounded": -2, "undefined": -3, "notsolved": 0}


def make_solver(seed: int, cov, time_limit=None):
    import pulp

    class SimSolver(pulp.LpSolver):
        name = "SIM"
        outcome = "ok"
        objective = None  # of the last feasible answer
        values: dict = {}
        used_model = None

        def available(self):
            return True

        def actualSolve(self, lp, **kwargs):
            rng = random.Random(seed)
            kind = self.outcome
            self.objective = None
            self.values = {}
            cov.step()
            if kind != "ok":
                cov.fault(f"solver-{kind}")
            if kind == "raise":
                raise pulp.PulpSolverError("injected")
            if kind == "interrupt":
                raise InjectedInterrupt
            if kind in STATUS:
                lp.assignVarsVals({v.name: None for v in lp.variables()})
                lp.assignStatus(STATUS[kind])
                return STATUS[kind]
            objective = lp.objective
            if kind in ("subopt", "incumbent"):
                import pulp as _p

                lp.setObjective(_p.lpSum(
                    rng.choice([-2, -1, 1, 2]) * v for v in lp.variables() if v.upBound is not None
                ) + _p.lpSum(v for v in lp.variables() if v.upBound is None))
            # No threads option: with it, CBC now and then waits for 10 s on a lock
            status = pulp.PULP_CBC_CMD(msg=False).actualSolve(lp)
            if kind in ("subopt", "incumbent"):
                lp.setObjective(objective)
            if status == 1:
                self.values = {v.name: v.varValue for v in lp.variables()}
                self.objective = pulp.value(objective)
            if kind == "noise":
                for v in lp.variables():
                    if v.varValue is not None and rng.random() < 0.5:
                        v.varValue += rng.uniform(-1, 1) * 1e-7
            if kind == "incumbent" and status == 1:
                lp.assignStatus(0)
                return 0
            if kind == "partial":
                for v in lp.variables():
                    if rng.random() < 0.5:
                        v.varValue = None
                lp.assignStatus(0)
                return 0
            return status

    return SimSolver()


# --------------------------------------------------------------------------------------
# Solvers that leave their answer behind when they are interrupted.
# --------------------------------------------------------------------------------------

FILE_FAULTS = ["raise", "timeout", "int-nofile", "int-empty", "int-full", "int-cut", "int-cut", "int-incumbent",
               "int-garbage", "int-wrong", "int-wrong", "int-stale"]
FIND_FAULTS = ["raise", "find-full", "find-incumbent", "find-partial", "find-nothing", "find-raise", "find-wrong"]


def solve_quietly(lp, rng=None):
    """Values and status of CBC's answer; the model's own values are put back."""
    import pulp

    old = {v.name: v.varValue for v in lp.variables()}
    status0, sol0, objective = lp.status, lp.sol_status, lp.objective
    if rng is not None:  # any feasible point
        lp.setObjective(pulp.lpSum(
            rng.choice([-2, -1, 1, 2]) * v for v in lp.variables() if v.upBound is not None
        ))
    status = pulp.PULP_CBC_CMD(msg=False).actualSolve(lp)
    if rng is not None:
        lp.setObjective(objective)
    values = {v.name: v.varValue for v in lp.variables()}
    for v in lp.variables():
        v.varValue = old.get(v.name)
    lp.status, lp.sol_status = status0, sol0
    return status, values


def wrong(values, rng):
    """Binary values with some flipped: a point that need not satisfy the constraints."""
    return {k: (1 - round(v)) if rng.random() < 0.3 else v for k, v in values.items() if v is not None}


def make_file_solver(seed: int, cov):
    import os

    import pulp

    class FileSolver(pulp.GUROBI_CMD):
        """Writes its solution to a file, like a command-line solver; pulp's own reader parses it."""

        outcome = "ok"
        frac = 0.5

        def available(self):
            return True

        def defaultPath(self):
            return "none"

        def actualSolve(self, lp, **kwargs):
            rng = random.Random(seed)
            kind = self.outcome
            cov.step()
            if kind != "ok":
                cov.fault(f"solver-file-{kind}")
            tmp_lp, tmp_sol = self.create_tmp_files(lp.name, "lp", "sol")
            with open(tmp_lp, "w") as f:
                f.write("model\n")
            if kind == "raise":
                self.delete_tmp_files(tmp_lp)
                raise pulp.PulpSolverError("injected")
            status, values = solve_quietly(lp, rng if kind == "int-incumbent" else None)
            text = ["# Objective value = 0", *(f"{k} {v:g}" for k, v in values.items() if v is not None)]
            if kind == "int-wrong":
                text = [text[0], *(f"{k} {v:g}" for k, v in wrong(values, rng).items())]
            text = "\n".join(text) + "\n"
            if kind == "int-cut":
                text = text[: int(len(text) * self.frac)]
            elif kind == "int-empty":
                text = ""
            elif kind == "int-garbage":
                text = "# Objective\n" + "".join(chr(rng.randint(32, 120)) for _ in range(40)) + "\n"
            elif kind == "int-stale":
                text = "# Objective value = 0\n" + "".join(f"x{i} 1\n" for i in range(3))
            if status == 1 and kind not in ("timeout", "int-nofile"):
                with open(tmp_sol, "w") as f:
                    f.write(text)
            if kind.startswith("int"):
                raise InjectedInterrupt
            if not os.path.exists(tmp_sol):
                lp.assignVarsVals({v.name: None for v in lp.variables()})
                status = status if status != 1 else 0
            else:
                status, values, *_ = self.readsol(tmp_sol)
                lp.assignVarsVals(values)
            self.delete_tmp_files(tmp_lp, tmp_sol)
            lp.assignStatus(status)
            return status

    return FileSolver(msg=False)


def make_find_solver(seed: int, cov):
    import pulp

    class FindSolver(pulp.LpSolver):
        """Keeps its best point in memory, like a solver library."""

        name = "FIND"
        outcome = "ok"
        frac = 0.5

        def available(self):
            return True

        def actualSolve(self, lp, **kwargs):
            kind = self.outcome
            cov.step()
            if kind != "ok":
                cov.fault(f"solver-{kind}")
            if kind == "raise":
                raise pulp.PulpSolverError("injected")
            if kind == "ok":
                return pulp.PULP_CBC_CMD(msg=False).actualSolve(lp)
            raise InjectedInterrupt

        def findSolutionValues(self, lp):
            rng = random.Random(seed)
            kind = self.outcome
            if kind == "find-raise":
                raise RuntimeError("injected")
            if kind == "find-nothing":
                lp.assignStatus(0)
                return 0
            status, values = solve_quietly(lp, rng if kind == "find-incumbent" else None)
            if status != 1:
                lp.assignStatus(status)
                return status
            if kind == "find-wrong":
                values = wrong(values, rng)
            elif kind == "find-partial":
                values = {k: v for k, v in values.items() if rng.random() < 0.7}
            lp.assignVarsVals(values)
            lp.assignStatus(1)
            return 1

    return FindSolver()
