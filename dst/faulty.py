"""User-defined operations the simulator controls: pass-through, unless a fault is due."""

from b_asic.graph_component import Name, TypeName
from b_asic.operation import AbstractOperation


class InjectedError(Exception):
    """A failure the simulator injected."""


class InjectedInterrupt(KeyboardInterrupt):
    """A user interrupt the simulator injected."""


class Plan:
    """Which evaluations of the episode fail."""

    count = 0
    fail_at: dict = {}
    fired = 0
    on_fault = None

    @classmethod
    def reset(cls, fail_at=None, on_fault=None):
        cls.count = 0
        cls.fired = 0
        cls.fail_at = dict(fail_at or {})
        cls.on_fault = on_fault

    @classmethod
    def tick(cls):
        n = cls.count
        cls.count += 1
        kind = cls.fail_at.get(n)
        if kind is not None:
            cls.fired += 1
            if cls.on_fault:
                cls.on_fault(kind)
            if kind == "op-interrupt":
                raise InjectedInterrupt("injected")
            raise InjectedError("injected")


class FaultyOp(AbstractOperation):
    """y = x, or an injected failure."""

    def __init__(self, src0=None, name: Name = Name(""), latency=None,
                 latency_offsets=None, execution_time=None):
        super().__init__(input_count=1, output_count=1, name=Name(name),
                         input_sources=[src0], latency=latency,
                         latency_offsets=latency_offsets, execution_time=execution_time)

    @classmethod
    def type_name(cls) -> TypeName:
        return TypeName("fop")

    def evaluate(self, a, data_type=None):
        Plan.tick()
        return a
