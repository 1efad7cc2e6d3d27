"""Evidence, violations, known findings."""

from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path
from typing import Any

ROOT = Path(__file__).resolve().parent.parent
OUT = Path(os.environ.get("VERIF_OUT", ROOT))
KNOWN = ROOT.joinpath("known_findings.json")


class Violation(Exception):
    """Property broken. `key` identifies the failing input/site/history."""

    def __init__(self, key: str, msg: str, detail: Any = None):
        super().__init__(f"[{key}] {msg}")
        self.key = key
        self.msg = msg
        self.detail = detail


class Report:
    def __init__(self, prop: str, level: str):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.violations: dict[str, Violation] = {}
        self.known_hit: dict[str, str] = {}
        self.cov: dict[str, Any] = {}
        self.counters: dict[str, int] = {}
        self.samples: list[Any] = []
        self.assumptions: list[str] = []
        self.parts: dict[str, Any] = {}
        self._distinct: set = set()
        self.known = self._load_known()

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def _load_known(self) -> dict[str, str]:
        try:
            data = json.loads(KNOWN.read_text())
        except FileNotFoundError:
            return {}
        return {
            e["key"]: e["what"]
            for e in data.get("known", [])
            if e["property"] == self.prop
        }

    # -- counting -------------------------------------------------------
    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, descr: Any = None, nontrivial: bool = True) -> None:
        """Counts one explored execution/input; distinctness by content."""
        self.count("evaluations")
        if nontrivial:
            h = hashlib.blake2b(repr(descr).encode(), digest_size=12).digest()
            self._distinct.add(h)

    def sample(self, s: Any, limit: int = 6) -> None:
        if len(self.samples) < limit:
            self.samples.append(s)

    def part(self, name: str, **kw: Any) -> None:
        self.parts[name] = kw

    # -- violations -----------------------------------------------------
    def violate(self, key: str, msg: str, detail: Any = None) -> None:
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        if key not in self.violations:
            self.violations[key] = Violation(key, msg, detail)

    def guard(self, key: str, fn, *args, **kw):
        """Runs fn, turning Violation/any exception into a recorded violation."""
        try:
            return fn(*args, **kw)
        except Violation as v:
            self.violate(v.key, v.msg, v.detail)
        return None

    # -- output ---------------------------------------------------------
    def finish(self) -> int:
        wall = time.time() - self.t0
        cov: dict[str, Any] = dict(self.cov)
        c = self.counters
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", c.get("evaluations", 0))
            cov.setdefault("distinct_nontrivial", len(self._distinct))
            cov.setdefault("rule", "see DESIGN.md")
        else:
            cov.setdefault("states", c.get("states", len(self._distinct)))
            cov.setdefault("transitions", c.get("transitions") or c.get("evaluations", 0))
            cov.setdefault("traces_validated_against_impl", c.get("evaluations", 0))
        cov.setdefault("exhaustive", True)
        cov["samples"] = self.samples or ["(none)"]
        if self.parts:
            cov["parts"] = self.parts
        extra = {
            k: v
            for k, v in c.items()
            if k not in ("evaluations", "states", "transitions")
        }
        if extra:
            cov["counters"] = extra
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(self.violations),
        }
        if self.known_hit:
            cov["known_findings"] = sorted(self.known_hit)
        d = OUT.joinpath("evidence")
        d.mkdir(parents=True, exist_ok=True)
        d.joinpath(f"{self.prop}.json").write_text(
            json.dumps(ev, indent=1, default=str) + "\n"
        )
        for k, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k}: {what}")
        for v in self.violations.values():
            out = OUT.joinpath("out", "replay")
            out.mkdir(parents=True, exist_ok=True)
            h = hashlib.blake2b(v.key.encode(), digest_size=6).hexdigest()
            f = out.joinpath(f"{self.prop}-{h}.json")
            f.write_text(
                json.dumps(
                    {
                        "property": self.prop,
                        "key": v.key,
                        "message": v.msg,
                        "detail": v.detail,
                        "rerun": f"/verif/check.sh {self.prop} {self.tier}",
                    },
                    indent=1,
                    default=str,
                )
                + "\n"
            )
            print(f"{self.prop}: {v.key}: {v.msg}")
            print(f"VIOLATION property={self.prop} replay={f}")
        if not self.violations:
            print(
                f"OK property={self.prop} tier={self.tier} "
                f"evaluations={c.get('evaluations', 0)} states={cov.get('states', '-')} "
                f"transitions={cov.get('transitions', '-')} wall={wall:.1f}s"
            )
        sys.stdout.flush()
        return 1 if self.violations else 0


def run_check(prop: str, level: str, fn) -> int:
    """Runs a check; an exception escaping from the code under test in a place
    where the property promises success is a violation too."""
    rep = Report(prop, level)
    try:
        fn(rep)
    except Violation as v:
        rep.violate(v.key, v.msg, v.detail)
    except Exception as ex:  # noqa: BLE001
        tb = traceback.format_exc()
        if _from_repo(ex):
            rep.violate(
                f"unexpected-exception:{type(ex).__name__}",
                f"the code under test raised unexpectedly: {ex!r}",
                tb,
            )
        else:
            # An error of the harness itself: not a verdict.
            sys.stderr.write(tb)
            if not rep.violations:
                return 2
    return rep.finish()


def _from_repo(ex: BaseException) -> bool:
    """True if some frame of the traceback is in the code under test, or if
    autograd failed (which calls it without leaving a frame)."""
    tb = ex.__traceback__
    last_verif = False
    seen = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/repo/src/fairseq2" in fn or "/src/fairseq2/" in fn:
            seen = True
        if fn.endswith("torch/autograd/graph.py") and tb.tb_next is None:
            seen = True
        tb = tb.tb_next
    if seen:
        return True
    if ex.__cause__ is not None:
        return _from_repo(ex.__cause__)
    return last_verif
