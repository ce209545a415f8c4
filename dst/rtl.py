"""
Clock-by-clock simulation of generated VHDL in GHDL, under a driver the trace decides.

The driver is a table: for every clock period the value of every input (clock enable and
reset included). The outputs are sampled right before the rising edge that ends the period.
Every don't-care of the generated code is resolved to a seeded bit, as a synthesis tool may.
"""

from __future__ import annotations

import os
import random
import re
import shutil
import subprocess
import tempfile

from dst.core import Violation

TIMEOUT = 60


def tie(text: str, rng: random.Random, mode: str) -> str:
    """
    Resolve don't-cares: each bit to 0, 1 or a random one; where the others of a selection are
    literals, to one of them (an arithmetic shift by an amount out of range ends a simulation).
    """
    def bit() -> str:
        return mode if mode in "01" else rng.choice("01")

    out = []
    literals: list = []
    for s in text.split("\n"):
        code, sep, comment = s.partition(" --") if not s.lstrip().startswith("--") else ("", "", s)
        if re.match(r"\s*with ", code):
            literals = []
        m = re.match(r'\s*(b"[01]+") when ', code)
        if m:
            literals.append(m.group(1))
        if literals and "(others => '-') when others" in code:
            pick = literals[{"0": 0, "1": -1}.get(mode, rng.randrange(len(literals)))]
            code = code.replace("(others => '-')", pick)
        code = re.sub(r"'-'", lambda m: f"'{bit()}'", code)
        code = re.sub(r'"-+"', lambda m: '"' + "".join(bit() for _ in m.group()[1:-1]) + '"', code)
        out.append(code + sep + comment)
    return "\n".join(out)


def bench(top: str, inputs: dict, outputs: dict, rows: list[dict]) -> str:
    """A test bench that drives *rows* and prints the outputs of each clock period."""
    sig, maps, take = [], ["clk => clk"], []
    for n, w in inputs.items():
        scalar, b = w == 0, max(w, 1)
        t = "std_logic := '0'" if scalar else f"std_logic_vector({b - 1} downto 0) := (others => '0')"
        sig.append(f"  signal {n} : {t};")
        maps.append(f"{n} => {n}")
        take.append((n, b, scalar))
    width = sum(b for _, b, _ in take)
    hi = width - 1
    body = []
    for n, b, scalar in take:
        body.append(f"      {n} <= STIM(i)({hi});" if scalar else f"      {n} <= STIM(i)({hi} downto {hi - b + 1});")
        hi -= b
    for n, w in outputs.items():
        sig.append(f"  signal {n} : std_logic_vector({w - 1} downto 0);")
        maps.append(f"{n} => {n}")
    data = []
    for i, r in enumerate(rows):
        bits = "".join(format(r.get(n, 0) & ((1 << b) - 1), f"0{b}b") for n, b, _ in take)
        data.append(f'    {i} => "{bits}"')
    show = []
    for n in outputs:
        show.append(f"      write(l, string'(\" \") & to_string({n}));")
    return "\n".join([
        "library ieee;", "use ieee.std_logic_1164.all;", "use std.textio.all;",
        "entity dst_tb is end entity;", "architecture t of dst_tb is",
        "  signal clk : std_logic := '0';", *sig,
        f"  type rows is array(0 to {len(rows) - 1}) of std_logic_vector({width - 1} downto 0);",
        "  constant STIM : rows := (", ",\n".join(data), "  );",
        "begin",
        f"  dut : entity work.{top} port map (" + ", ".join(maps) + ");",
        "  process", "    variable l : line;", "  begin",
        "    for i in STIM'range loop", *body,
        "      wait for 4 ns;",
        "      write(l, string'(\"OUT\"));", *show, "      writeline(output, l);",
        "      clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;",
        "    end loop;", "    wait;", "  end process;", "end architecture;", "",
    ])


def run(sources: list[tuple[str, str]], top: str, inputs: dict, outputs: dict, rows: list[dict],
        cov=None) -> list[dict]:
    """
    Simulate. *sources* are (file name, text) in compile order; *inputs* maps a port to its
    width (0: a std_logic), *outputs* to its width. Returns the outputs of each clock period as
    integers, or None where a bit is neither 0 nor 1.
    """
    d = tempfile.mkdtemp(prefix="dst-rtl-")
    try:
        names = []
        for n, text in [*sources, ("dst_tb.vhdl", bench(top, inputs, outputs, rows))]:
            with open(os.path.join(d, n), "w") as f:
                f.write(text)
            names.append(n)
        p = subprocess.run(
            ["ghdl", "-c", "--std=08", *names, "-r", "dst_tb", "--ieee-asserts=disable"],
            check=False, cwd=d, capture_output=True, text=True, timeout=TIMEOUT, stdin=subprocess.DEVNULL,
        )
    finally:
        shutil.rmtree(d)
    lines = [s.split()[1:] for s in p.stdout.splitlines() if s.startswith("OUT")]
    if p.returncode or len(lines) != len(rows):
        err = [s for s in (p.stderr + p.stdout).splitlines() if "error" in s or "failure" in s or "bound" in s]
        raise Violation("hardware-invalid", f"ghdl {p.returncode}: {'; '.join(err[:2])[:300]}",
                        re.sub(r"[0-9]+", "N", err[0].split(":", 3)[-1])[:60] if err else "")
    if cov is not None:
        cov.sim_time += len(rows)
        cov.step(len(rows))
    return [
        {n: int(v, 2) if set(v) <= {"0", "1"} else None for n, v in zip(outputs, ln, strict=True)}
        for ln in lines
    ]


def signed(v, bits):
    return v - (1 << bits) if v is not None and v >> (bits - 1) else v
