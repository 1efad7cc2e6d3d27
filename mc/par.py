"""Runs independent parts of a check in forked worker processes."""

from __future__ import annotations

import os
import pickle
import sys
import traceback
from typing import Callable

from mc.report import Report, Violation, _from_repo


class WorkerError(Exception):
    pass


def _child(rep: Report, job: Callable[[Report], None], wfd: int) -> None:
    sub = Report(rep.prop, rep.level)
    err = None
    try:
        job(sub)
    except Violation as v:
        sub.violate(v.key, v.msg, v.detail)
    except Exception as ex:  # noqa: BLE001
        tb = traceback.format_exc()
        if _from_repo(ex):
            sub.violate(
                f"unexpected-exception:{type(ex).__name__}",
                f"the code under test raised unexpectedly: {ex!r}",
                tb,
            )
        else:
            err = tb
    out = dict(
        violations=[(v.key, v.msg, repr(v.detail)) for v in sub.violations.values()],
        known=sub.known_hit,
        counters=sub.counters,
        samples=sub.samples,
        parts=sub.parts,
        cov=sub.cov,
        distinct=sub._distinct,
        assumptions=sub.assumptions,
        err=err,
    )
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(out, f)


def run_jobs(rep: Report, jobs: list[Callable[[Report], None]], workers: int | None = None) -> None:
    if workers is None:
        workers = min(8, len(os.sched_getaffinity(0)))
    sys.stdout.flush()
    sys.stderr.flush()
    pending = list(enumerate(jobs))
    running: dict[int, tuple[int, int]] = {}
    results: dict[int, dict] = {}
    import select

    bufs: dict[int, list[bytes]] = {}
    fds: dict[int, int] = {}
    pids: dict[int, int] = {}
    while pending or fds:
        while pending and len(fds) < workers:
            i, job = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    _child(rep, job, w)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            fds[r] = i
            pids[r] = pid
            bufs[r] = []
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                bufs[fd].append(data)
                continue
            os.close(fd)
            i = fds.pop(fd)
            os.waitpid(pids.pop(fd), 0)
            raw = b"".join(bufs.pop(fd))
            if not raw:
                raise WorkerError(f"worker {i} died without a result")
            results[i] = pickle.loads(raw)
    errs = []
    for i in sorted(results):
        o = results[i]
        for k, m, d in o["violations"]:
            rep.violate(k, m, d)
        rep.known_hit.update(o["known"])
        for k, v in o["counters"].items():
            rep.counters[k] = rep.counters.get(k, 0) + v
        for s in o["samples"][:3]:
            rep.sample(s, 10)
        rep.parts.update(o["parts"])
        for k, v in o["cov"].items():
            if k == "exhaustive":
                rep.cov[k] = bool(rep.cov.get(k, True)) and v
            elif isinstance(v, int) and not isinstance(v, bool):
                rep.cov[k] = rep.cov.get(k, 0) + v
            else:
                rep.cov.setdefault(k, v)
        rep._distinct |= o["distinct"]
        for a in o["assumptions"]:
            if a not in rep.assumptions:
                rep.assumptions.append(a)
        if o["err"]:
            errs.append(o["err"])
    if errs and not rep.violations:
        raise WorkerError(errs[0])
