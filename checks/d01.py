"""D01: processes that read their shards of a dataset stay in step."""

from __future__ import annotations

import itertools
from types import SimpleNamespace
from typing import Any

from mc import boot

boot.init()

from checks.train_common import FakePipeline
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.simgang import run_ranks

LEVEL = "model_checking"

EVENTS = ("reset", "restore", "rewind", "back")


class Pipe(FakePipeline):
    def __init__(self, epochs):
        super().__init__(epochs)
        self.strict: list[bool] = []
        self.fail_at = None

    def __next__(self):
        from fairseq2.data.data_pipeline import DataPipelineError

        if self.fail_at is not None and self.i == self.fail_at:
            raise DataPipelineError("x")
        return super().__next__()

    def state_dict(self, strict: bool = True):
        self.strict.append(strict)
        return super().state_dict()


def expected(lens: tuple, acc: int, drop: bool, mode: str, epoch: int) -> list[list[list]]:
    """out[rank] = list of steps, each a list of batches."""
    w = len(lens)
    data = [[(epoch, r, i) for i in range(n)] for r, n in enumerate(lens)]
    steps: list[list[list]] = [[] for _ in range(w)]
    done = [False] * w
    t = 0
    while True:
        cur = [d[t * acc : (t + 1) * acc] for d in data]
        if drop:
            cur = [c if len(c) == acc else [] for c in cur]
        t += 1
        if mode == "first":
            m = min(len(c) for c in cur)
            if m == 0:
                return steps
            cur = [c[:m] for c in cur]
        elif mode == "last":
            if not any(cur):
                return steps
        for r in range(w):
            if mode == "none":
                if not cur[r]:
                    done[r] = True
                if not done[r]:
                    steps[r].append(cur[r])
            else:
                steps[r].append(cur[r])
        if mode == "none" and all(done):
            return steps


def one(rep: Report, lens: tuple, acc: int, drop: bool, mode: str, tp: int, script: tuple) -> None:
    """script: (kind, position) events inserted before the position-th read."""
    from fairseq2.datasets.data_reader import DataPipelineReader, SyncMode

    w = len(lens)
    where = f"batches per process {lens}, accumulate {acc}, drop_remainder {drop}, sync {mode}, tp {tp}, events {script}"
    exp = [expected(lens, acc, drop, mode, e) for e in range(6)]

    def main(rank: int, gangs: Any) -> list:
        d = gangs.dp.rank

        def mk() -> tuple:
            pipe = Pipe(lambda e: [(e, d, i) for i in range(lens[d])])
            reader = DataPipelineReader(
                pipe,
                gangs,
                num_accumulate=acc,
                drop_remainder=drop,
                sync=mode != "none",
                sync_mode=SyncMode.UNTIL_LAST if mode == "last" else SyncMode.UNTIL_FIRST,
                strict_state=d % 2 == 0,
            )
            return pipe, reader

        pipe, reader = mk()
        if iter(reader) is not reader or reader.num_accumulate != acc:
            raise Violation("interface", where)
        out: list = []
        ev = dict(script)
        reads = 0
        epoch = 0
        eods = 0
        while eods < 2:
            k = ev.pop(reads, None)
            if k == "reset":
                reader.reset()
                epoch += 1
                out.append("reset")
            elif k == "restore":
                sd = reader.state_dict()
                if pipe.strict != [d % 2 == 0]:
                    raise Violation("strict", f"{where}: state taken with strict={pipe.strict}")
                sd = dict(sd)
                # whatever the old reader does later must not matter
                pipe, reader = mk()
                reader.load_state_dict(sd)
            elif k == "rewind":
                sd = dict(reader.state_dict())
                try:
                    next(reader)
                except StopIteration:
                    pass
                reader.load_state_dict(sd)
                out.append("rewind")
                pipe.strict.clear()
            elif k == "back":
                # read to the end, then return to where we were
                sd = dict(reader.state_dict())
                for _ in reader:
                    pass
                reader.load_state_dict(sd)
                out.append("back")
                pipe.strict.clear()
            reads += 1
            try:
                out.append(next(reader))
            except StopIteration:
                out.append("eod")
                eods += 1
                # stays at the end until reset
                for _ in range(2):
                    try:
                        got = next(reader)
                    except StopIteration:
                        continue
                    raise Violation("eod-not-sticky", f"{where}: process {d} returned {got} after the end of data")
                reader.reset()
                epoch += 1
                out.append("reset")
        return out

    outs = run_ranks(w * tp, main, tp_size=tp)
    rep.case((lens, acc, drop, mode, tp, script))
    rep.count("transitions", sum(len(o) for o in outs))
    for rank, o in enumerate(outs):
        d = rank // tp
        e, i, want = 0, 0, []
        for x in o:
            if x == "reset":
                e, i = e + 1, 0
                continue
            if x in ("rewind", "back"):
                continue
            steps = exp[e][d]
            if i < len(steps):
                if x != steps[i]:
                    raise Violation("batches", f"{where}: process {d} got {x} at step {i} of pass {e}, expected {steps[i]}")
                i += 1
            elif x != "eod":
                raise Violation("length", f"{where}: process {d} got {x} although the pass is over after {len(steps)} steps")
        del want
    if mode != "none":
        shapes = {
            tuple((len(x) if mode == "first" else "b") if isinstance(x, list) else x for x in o) for o in outs
        }
        if len(shapes) != 1:
            raise Violation("out-of-step", f"{where}: processes see {sorted(map(str, shapes))}")


def failing(rep: Report, acc: int, at: int, sync: bool) -> None:
    from fairseq2.datasets.data_reader import DataPipelineReader, DataReadError

    def main(rank: int, gangs: Any) -> list:
        pipe = Pipe(lambda e: list(range(5)))
        pipe.fail_at = at
        reader = DataPipelineReader(pipe, gangs, num_accumulate=acc, sync=sync)
        out: list = []
        try:
            for b in reader:
                out += b
        except DataReadError:
            return out
        raise Violation("error-lost", f"a pipeline error at batch {at} (accumulate {acc}) was not reported; got {out}")

    for o in run_ranks(2, main):
        if o != list(range(at // acc * acc)):
            raise Violation("error-data", f"batches {o} before an error at batch {at}, accumulate {acc}")
    rep.case(("fail", acc, at, sync))


def check(rep: Report) -> None:
    cfgs: list[tuple] = []
    maxlen = 5 if rep.thorough else 4
    worlds = {1: maxlen + 1, 2: maxlen, 3: 3 if rep.thorough else 2}
    for w, m in worlds.items():
        for lens in itertools.product(range(m + 1), repeat=w):
            for acc in (1, 2, 3) if not rep.thorough else (1, 2, 3, 4):
                for drop in (False, True):
                    for mode in ("first", "last", "none"):
                        cfgs.append((lens, acc, drop, mode, 1))
    for lens in itertools.product(range(3), repeat=2):
        for mode in ("first", "last"):
            cfgs.append((lens, 2, False, mode, 2))
    n = 16

    def job(i: int):
        def go(r: Report) -> None:
            for c in cfgs[i::n]:
                lens, acc, _, mode, _ = c
                top = max(lens) // acc + 2
                scripts: list[tuple] = [()]
                # without synchronisation, processes may be reset apart
                for k in EVENTS:
                    scripts += [((p, k),) for p in range(top)]
                if r.thorough:
                    scripts += [
                        ((p, a), (q, b))
                        for p in range(top)
                        for q in range(p + 1, top + 1)
                        for a in EVENTS
                        for b in EVENTS
                    ]
                for s in scripts:
                    one(r, *c, s)
            r.sample({"batches": c[0], "accumulate": c[1], "mode": c[3], "script": s})

        return go

    def fails(r: Report) -> None:
        for acc in (1, 2, 3):
            for at in range(5):
                for sync in (True, False):
                    failing(r, acc, at, sync)

    run_jobs(rep, [job(i) for i in range(n)] + [fails])
    rep.count("states", rep.counters.get("evaluations", 0))
    rep.assumptions.append("collectives are modelled as synchronising calls; the native pipeline is replaced by an equivalent Python one")
