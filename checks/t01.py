"""T01: what a training run does, and when.

Exhaustive enumeration of schedules (cadences, delays, end conditions, data
sizes), of the moment at which a stop is requested and of early stops; each
run of the real Trainer is compared with the event sequence that an executable
specification of the schedule prescribes."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from checks.train_common import Cfg, Rig
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.sched import make_inline_pool

LEVEL = "exploration"


class Spec:
    """Event sequence prescribed for `cfg`."""

    def __init__(self, cfg: Cfg):
        self.cfg = cfg
        self.ev: list[tuple] = []
        self.stop = False
        self.saved: list[int] = []
        self.scored: set[int] = set()
        self.result = "done"
        self.run()

    def emit(self, *e: Any) -> None:
        self.ev.append(e)
        if self.cfg.stop_at == e[:2]:
            self.stop = True

    def cadence(self, what: str, s: int) -> bool:
        a = self.cfg.args
        every = a.get(f"{what}_every_n_steps")
        return every is not None and s > a.get(f"{what}_after_n_steps", 0) and s % every == 0

    def epoch_cadence(self, what: str, e: int) -> bool:
        a = self.cfg.args
        every = a.get(f"{what}_every_n_data_epochs")
        return every is not None and e > a.get(f"{what}_after_n_data_epochs", 0) and e % every == 0

    def save(self, s: int) -> None:
        if not self.saved or self.saved[-1] != s:
            self.saved.append(s)

    def validate(self, s: int, saves: bool) -> None:
        self.emit("validate", s)
        self.emit("publish-valid", s)
        if saves:
            self.scored.add(s)

    def boundary(self, s: int, fires: Any) -> bool:
        """Returns True if validation asks for an early stop."""
        if fires("checkpoint"):
            self.save(s)
        if fires("publish_metrics"):
            self.emit("publish", s)
        if self.cfg.valid and fires("validate"):
            self.validate(s, fires("checkpoint"))
            es = self.cfg.early_stop_at
            if es is not None:
                return s >= es
        return False

    def finish(self, s: int, fires: Any) -> None:
        if fires("publish_metrics"):
            self.emit("publish", s)
        if fires("checkpoint"):
            self.save(s)
        if self.cfg.valid and fires("validate"):
            self.validate(s, fires("checkpoint"))

    def run(self) -> None:
        cfg, a = self.cfg, self.cfg.args
        max_steps, max_epochs = a.get("max_num_steps"), a.get("max_num_data_epochs")
        s, e = 0, 1
        always = lambda w: True
        self.emit("epoch", 1)
        if cfg.valid and a.get("validate_at_start"):
            self.validate(0, False)
        while True:
            uids = [(e, i) for i in range(len(cfg.sizes))]
            k = (e - 1) % max(1, len(uids))
            uids = [u for u in uids[k:] + uids[:k]]
            groups = [uids[i : i + cfg.accumulate] for i in range(0, len(uids), cfg.accumulate)]
            if cfg.drop_remainder and groups and len(groups[-1]) != cfg.accumulate:
                groups.pop()
            early = False
            for g in groups:
                s += 1
                self.emit("step", s)
                for u in g:
                    self.emit("batch", s, u)
                if max_steps is not None and s >= max_steps:
                    self.finish(s, always)
                    self.result = "stopped" if self.stop else "done"
                    return
                if self.stop:
                    self.finish(s, always)
                    self.result = "stopped"
                    return
                early = self.boundary(s, lambda w: self.cadence(w, s))
                if early:
                    break
            if s == 0:
                self.result = "stopped" if self.stop else "done"
                return
            if early:
                self.save(s)
                self.result = "stopped"
                return
            # end of a data epoch
            if max_epochs is not None and e >= max_epochs:
                self.finish(s, lambda w: not self.cadence(w, s))
                self.result = "stopped" if self.stop else "done"
                return
            stop_now = self.stop
            if not stop_now:
                early = self.boundary(
                    s, lambda w: self.epoch_cadence(w, e) and not self.cadence(w, s)
                )
            e += 1
            self.emit("epoch", e)
            if early:
                self.save(s)
                self.result = "stopped"
                return
            if stop_now:
                self.finish(s, always)
                self.result = "stopped"
                return


def observed(rig: Rig) -> list[tuple]:
    out: list[tuple] = []
    for x in rig.events:
        if x[0] == "publish":
            out.append(("publish" if x[1] == "train" else "publish-valid", x[2]))
        elif x[0] in ("step", "epoch", "batch", "validate"):
            out.append(x)
    return out


SHARDS = 4


def run_one(rep: Report, cfg: Cfg, polls: int) -> None:
    rep.turn = getattr(rep, "turn", -1) + 1  # type: ignore[attr-defined]
    if rep.turn % SHARDS != rep.shard:  # type: ignore[attr-defined]
        return
    n = {"n": 0}

    def when() -> bool:
        n["n"] += 1
        return n["n"] % (polls + 1) == polls

    spec = Spec(cfg)
    rig = Rig(cfg, pool=make_inline_pool(when))
    out = rig.run()
    rep.case((repr(cfg), polls), nontrivial=len(rig.events) > 3)

    def bad(key: str, msg: str) -> None:
        raise Violation(key, msg, {"cfg": repr(cfg), "spec": spec.ev, "observed": observed(rig)})

    got = observed(rig)
    if got != spec.ev:
        i = next(
            (i for i, (x, y) in enumerate(zip(got, spec.ev)) if x != y),
            min(len(got), len(spec.ev)),
        )
        g = got[i] if i < len(got) else "the end of the run"
        w = spec.ev[i] if i < len(spec.ev) else "the end of the run"
        bad("schedule", f"{cfg.args} {cfg.stop_at or ''}: event {i} is {g}, expected {w}")
    if out != spec.result:
        bad("result", f"the run reports '{out}', expected '{spec.result}'")
    saved = [x[1] for x in rig.events if x[0] == "saved"]
    if saved != spec.saved:
        bad("saved", f"{cfg.args} {cfg.stop_at or ''}: checkpoints saved at {saved}, expected {spec.saved}")
    if "keep_last_n_checkpoints" not in cfg.args:
        disk = rig.disk()
        if sorted(disk) != sorted(set(spec.saved)) or set(disk.values()) - {"full"}:
            bad("on-disk", f"{cfg.args} {cfg.stop_at or ''}: checkpoints on disk {disk}, expected {spec.saved}")
        scored = {s for _, s in rig.fresh_manager().load_scores()}
        if scored != spec.scored:
            bad("scores", f"{cfg.args} {cfg.stop_at or ''}: scores of steps {scored}, expected {spec.scored}")


ACTIONS = ("checkpoint", "publish_metrics", "validate")


def cadences(what: str, thorough: bool) -> Iterator[dict[str, Any]]:
    ss = [(None, 0), (1, 0), (2, 0), (2, 2), (3, 0)] + ([(1, 3), (3, 3)] if thorough else [])
    es = [(None, 0), (1, 0), (2, 0), (1, 1)] + ([(2, 2)] if thorough else [])
    for (a, b), (c, d) in itertools.product(ss, es):
        out: dict[str, Any] = {}
        if a is not None:
            out[f"{what}_every_n_steps"] = a
            out[f"{what}_after_n_steps"] = b
        if c is not None:
            out[f"{what}_every_n_data_epochs"] = c
            out[f"{what}_after_n_data_epochs"] = d
        yield out


def ends(thorough: bool) -> list[dict[str, int]]:
    out = [
        {"max_num_steps": 4},
        {"max_num_steps": 1},
        {"max_num_data_epochs": 1},
        {"max_num_data_epochs": 3},
        {"max_num_steps": 5, "max_num_data_epochs": 2},
    ]
    if thorough:
        out += [{"max_num_steps": 7}, {"max_num_steps": 6, "max_num_data_epochs": 3}]
    return out


def part_cadence(rep: Report, what: str) -> None:
    others = [x for x in ACTIONS if x != what]
    base = [{}, {f"{o}_every_n_steps": 1 for o in others}]
    for n, end, cad, bg in itertools.product((1, 2, 3), ends(rep.thorough), cadences(what, rep.thorough), base):
        if what == "publish_metrics" and bg:
            # other actions must be at a multiple of the publish interval
            p = cad.get("publish_metrics_every_n_steps")
            if p is not None:
                bg = {f"{o}_every_n_steps": 2 * p for o in others}
        if what != "publish_metrics" and bg:
            bg = dict(bg)
        cfg = Cfg(sizes=(1,) * n, valid=True, noise=False, kw=tuple({**end, **cad, **bg}.items()))
        run_one(rep, cfg, 1)


def part_stops(rep: Report) -> None:
    base = {"checkpoint_every_n_steps": 2, "publish_metrics_every_n_steps": 1, "validate_every_n_steps": 2}
    ep = {"checkpoint_every_n_data_epochs": 1, "validate_every_n_data_epochs": 2, "publish_metrics_every_n_data_epochs": 1}
    for n, end, cad, valid in itertools.product(
        (1, 2, 3), ends(rep.thorough), (base, ep, {**base, **ep}), (False, True)
    ):
        cfg = Cfg(sizes=(1,) * n, valid=valid, noise=False, kw=tuple({**end, **cad}.items()))
        plain = Spec(cfg)
        for e in plain.ev:
            if e[0] in ("batch",):
                continue
            run_one(rep, cfg.with_(stop_at=e[:2] if e[0] != "publish-valid" else ("validate", e[1])), 1)


def part_early(rep: Report) -> None:
    for n, end, ck, va, keep in itertools.product(
        (1, 2, 3), ends(rep.thorough), cadences("checkpoint", False), cadences("validate", False), (None, 1)
    ):
        if not va or (keep and "checkpoint_every_n_steps" not in ck):
            continue
        if keep and rep.tier == "quick" and n != 2:
            continue
        kw = {**end, **ck, **va}
        if keep:
            kw["keep_last_n_checkpoints"] = keep
        if not rep.thorough and "max_num_steps" in end and "max_num_data_epochs" in end:
            continue
        cfg = Cfg(sizes=(1,) * n, valid=True, noise=False, kw=tuple(kw.items()))
        vs = sorted({e[1] for e in Spec(cfg).ev if e[0] == "validate"})
        for s in vs[:-1] if len(vs) > 1 else vs:
            run_one(rep, cfg.with_(early_stop_at=s), 2)


def part_data(rep: Report) -> None:
    for sizes, acc, drop, start, polls in itertools.product(
        ((), (1,), (1, 2), (2, 1, 1), (1, 1, 1, 1), (1,) * 5), (1, 2, 3), (False, True), (False, True), (0, 1, 3)
    ):
        for end in ends(rep.thorough):
            kw = {**end, "checkpoint_every_n_steps": 2, "publish_metrics_every_n_steps": 2, "validate_at_start": start}
            cfg = Cfg(sizes=sizes, accumulate=acc, drop_remainder=drop, valid=start, noise=False, kw=tuple(kw.items()))
            if not groups(cfg) and sizes:
                pass
            run_one(rep, cfg, polls)


def groups(cfg: Cfg) -> int:
    n, a = len(cfg.sizes), cfg.accumulate
    return n // a if cfg.drop_remainder else -(-n // a)


def check(rep: Report) -> None:
    rep.assumptions += ["single process; collectives of the schedule are covered by other checks"]
    parts: list = [lambda r, w=w: part_cadence(r, w) for w in ACTIONS]
    parts += [part_stops, part_early, part_data]

    def job(part, shard):
        def go(r: Report) -> None:
            r.shard = shard  # type: ignore[attr-defined]
            part(r)

        return go

    run_jobs(rep, [job(p, i) for p in parts for i in range(SHARDS)])
    rep.sample({"parts": ["cadence x 3", "stops", "early stops", "data sizes"]})
