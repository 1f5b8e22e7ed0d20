"""Harness description."""

import dataclasses
from typing import Callable


@dataclasses.dataclass
class H:
    name: str
    fn: Callable  # fn(S, **params)
    bounds: str  # what the solver's verdict ranges over, in words (for the quick tier)
    quick: dict | None = dataclasses.field(default_factory=dict)
    thorough: dict | None = None  # defaults to quick
    setup: Callable | None = None  # run once in the symbolic process: install stand-ins
    budget: tuple = (240, 1500)  # seconds for exploration, quick / thorough
    expect: tuple = ()  # labels that must be reached (vacuity guard)
    bounds_thorough: str | None = None
    query_timeout_ms: int = 30000
    samples: int = 3
    concrete_setup: Callable | None = None

    def params(self, tier):
        if tier == "thorough":
            return self.thorough if self.thorough is not None else self.quick
        return self.quick
