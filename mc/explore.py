"""Systematic exploration of choice trees (stateless model checking).

A *body* is a deterministic function of a `Ctl`; every nondeterministic
decision it makes goes through `ctl.choose(n, label)`.  `Explorer.run`
enumerates every sequence of choices depth first by re-executing the body with
a recorded prefix.  A divergence while replaying a prefix (different number of
alternatives or different label at the same point) is a hard error, never a
silently skipped execution.

Alternative 0 is the default answer.  Every other alternative may carry a cost
(a deviation: a preemption, a fault ...); `bound` limits the total cost of an
execution.  `bound=None` means the tree is enumerated completely.
"""

from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable


class Divergence(Exception):
    """The body is not deterministic under the recorded choices."""


class Prune(Exception):
    """Raised by a body to end an execution that is equivalent to another one."""


@dataclass
class Point:
    label: str
    n: int
    costs: tuple[int, ...]
    chosen: int
    cost_before: int


class Ctl:
    def __init__(self, prefix: list[int], bound: int | None, labels: list | None = None):
        self.prefix = prefix
        self.labels = labels
        self.points: list[Point] = []
        self.cost = 0
        self.bound = bound
        self.transitions = 0

    def choose(self, n: int, label: str = "", costs: Any = 0) -> int:
        """Returns an integer in [0, n). `costs`: cost of alternatives > 0."""
        if n <= 0:
            raise ValueError("empty choice")
        if isinstance(costs, int):
            cs = (0,) + (costs,) * (n - 1)
        else:
            cs = tuple(costs)
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {i} ({label}): recorded {c} but only {n} alternatives")
            if self.labels is not None and i < len(self.labels):
                if self.labels[i] != (label, n):
                    raise Divergence(
                        f"choice {i}: expected {self.labels[i]}, got {(label, n)}"
                    )
        else:
            c = 0
        self.points.append(Point(label, n, cs, c, self.cost))
        self.cost += cs[c]
        self.transitions += 1
        return c

    def pick(self, items: list, label: str = "", costs: Any = 0) -> Any:
        return items[self.choose(len(items), label, costs)]

    def flag(self, label: str = "", cost: int = 0) -> bool:
        return self.choose(2, label, cost) == 1

    @property
    def choices(self) -> list[int]:
        return [p.chosen for p in self.points]


@dataclass
class Stats:
    executions: int = 0
    transitions: int = 0
    pruned: int = 0
    max_points: int = 0
    capped: bool = False
    outcomes: dict = field(default_factory=dict)

    def note(self, outcome: Any) -> None:
        k = repr(outcome)
        self.outcomes[k] = self.outcomes.get(k, 0) + 1


class Explorer:
    def __init__(self, bound: int | None = None, max_executions: int | None = None):
        self.bound = bound
        self.max_executions = max_executions
        self.stats = Stats()

    def run(self, body: Callable[[Ctl], Any], check: Callable[[Ctl, Any], None] | None = None) -> Stats:
        """Enumerates all executions of `body`. `body` raises to report."""
        stack: list[tuple[list[int], list]] = [([], [])]
        st = self.stats
        while stack:
            if self.max_executions is not None and st.executions >= self.max_executions:
                st.capped = True
                break
            prefix, labels = stack.pop()
            ctl = Ctl(prefix, self.bound, labels)
            try:
                out = body(ctl)
                if len(ctl.points) < len(prefix):
                    raise Divergence(
                        f"execution ended after {len(ctl.points)} of {len(prefix)} recorded choices"
                    )
                if check is not None:
                    check(ctl, out)
                if out is not None:
                    st.note(out)
            except Prune:
                st.pruned += 1
            st.executions += 1
            st.transitions += ctl.transitions
            st.max_points = max(st.max_points, len(ctl.points))
            pts = ctl.points
            all_labels = [(p.label, p.n) for p in pts]
            # Push deepest-last so that shallow deviations are explored first.
            for i in range(len(pts) - 1, len(prefix) - 1, -1):
                p = pts[i]
                for alt in range(p.n - 1, 0, -1):
                    if self.bound is not None and p.cost_before + p.costs[alt] > self.bound:
                        continue
                    base = [q.chosen for q in pts[:i]]
                    stack.append((base + [alt], all_labels[: i + 1]))
        return st


def replay(body: Callable[[Ctl], Any], choices: list[int]) -> tuple[Ctl, Any]:
    ctl = Ctl(list(choices), None)
    return ctl, body(ctl)
