"""Components, violations and comparison helpers shared by all checks."""
from __future__ import annotations

import dataclasses
from typing import Any, Callable

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""

    def __init__(self, msg: str, key: str | None = None) -> None:
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the property's domain (counted as evaluated, never as non-trivial)."""


@dataclasses.dataclass
class Component:
    """One executable oracle: strategy -> JSON-able spec, check(spec) -> label or None when trivial."""

    name: str
    strategy: Callable[[str], Any]
    check: Callable[[Any], Any]
    doc: str
    quick: int = 50
    thorough: int = 500
    shards: int = 1
    thorough_shards: int = 8
    budget: float = 60.0
    thorough_budget: float = 500.0
    threads: int = 1
    case_limit: float = 300.0
    pinned: tuple = ()


@dataclasses.dataclass
class Property:
    pid: str
    rule: str
    components: list
    assumptions: list


def fail(msg: str, key: str | None = None) -> None:
    raise Violation(msg, key)


def require(cond: Any, msg: str, key: str | None = None) -> None:
    if not cond:
        raise Violation(msg, key)


def close(got: Any, want: Any, what: str, tol: float = 1e-8, key: str | None = None) -> None:
    """Require got == want within tol * (1 + max|want|); shapes must agree and all entries be finite."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.dtype == object:
        raise Violation(f"{what}: non-numeric result {got!r}", key)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} instead of {w.shape}", key)
    if g.size == 0:
        return
    if not np.all(np.isfinite(g)):
        raise Violation(f"{what}: non-finite result", key)
    scale = 1.0 + float(np.max(np.abs(w)))
    err = float(np.max(np.abs(g - w)))
    if err > tol * scale:
        i = np.unravel_index(int(np.argmax(np.abs(g - w))), g.shape) if g.ndim else ()
        raise Violation(f"{what}: differs by {err:.3e} (tolerance {tol * scale:.1e}) at {tuple(int(x) for x in i)}: got {g[i]!r}, expected {w[i]!r}", key)


def raises(fn: Callable, exc: type | tuple, what: str) -> None:
    """Require fn() to raise one of exc."""
    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__} instead of being refused: {e}") from e
    raise Violation(f"{what}: was accepted")
