"""G01: parallel gangs partition the processes as documented, and collectives
on each of them involve exactly its members."""

from __future__ import annotations

from contextlib import ExitStack
from typing import Any
from unittest.mock import patch

from mc import boot

boot.init()

import torch

from mc.gloo import run_gloo
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.simgang import run_ranks

LEVEL = "model_checking"

KINDS = ("root", "dp", "rdp", "sdp", "tp", "pp")


def topologies(w: int) -> list[tuple[int, Any]]:
    out: list[tuple[int, Any]] = []
    for tp in range(1, w + 1):
        if w % tp:
            continue
        dp = w // tp
        out.append((tp, "ddp"))
        out.append((tp, "fsdp"))
        for n in range(2, dp + 1):
            if dp % n == 0:
                out.append((tp, n))
    return out


def spec(w: int, tp: int, mode: Any, r: int) -> dict[str, list[int]]:
    """Members (world ranks, in rank order) of each gang of process r."""
    dp_all = [x for x in range(w) if x % tp == r % tp]
    i = dp_all.index(r)
    out = {"root": list(range(w)), "dp": dp_all, "pp": [r]}
    out["tp"] = [x for x in range(w) if x // tp == r // tp]
    if mode == "ddp":
        out["rdp"], out["sdp"] = dp_all, [r]
    elif mode == "fsdp":
        out["rdp"], out["sdp"] = [r], dp_all
    else:
        out["sdp"] = [x for j, x in enumerate(dp_all) if j // mode == i // mode]
        out["rdp"] = [x for j, x in enumerate(dp_all) if j % mode == i % mode]
    return out


def build(root: Any, tp: int, mode: Any) -> Any:
    from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

    gangs = create_parallel_gangs(root, tp_size=tp)
    if mode == "fsdp":
        gangs = create_fsdp_gangs(gangs)
    elif mode != "ddp":
        gangs = create_fsdp_gangs(gangs, mode)
    return gangs


def program(me: int, gangs: Any) -> list:
    """Uses every collective of every gang; returns what this process saw."""
    from fairseq2.gang import ReduceOperation as R
    from fairseq2.gang import all_sum, broadcast_flag

    out: list = []
    for kind in KINDS:
        g = getattr(gangs, kind)
        n = g.size
        out.append((kind, "rank", g.rank, n))
        got = torch.full((n, 2), -1)
        g.all_gather(got, torch.tensor([me, 10 * me]))
        out.append((kind, "all_gather", got.tolist()))
        lst = [torch.full((1,), -1) for _ in range(n)]
        g.all_gather_to_list(lst, torch.tensor([me]))
        out.append((kind, "list", [x.item() for x in lst]))
        for op in (R.SUM, R.PRODUCT, R.MIN, R.MAX):
            if n == 1 and op in (R.MIN, R.MAX):
                continue  # fake gangs do not simulate these
            t = torch.tensor([me + 1, 3 - me])
            g.all_reduce(t, op)
            out.append((kind, op.name, t.tolist()))
        for src in range(n):
            t = torch.tensor([me, 7])
            g.broadcast(t, src)
            out.append((kind, "broadcast", src, t.tolist()))
            objs: list = [("obj", me), {"k": me}]
            g.broadcast_objects(objs, src)
            out.append((kind, "objects", src, objs))
        out.append((kind, "flag", [broadcast_flag(g, (me + s) % 3 == 0, s) for s in range(n)]))
        out.append((kind, "all_sum", float(all_sum(g, me)), float(all_sum(g, 0.5))))
        g.barrier()
    return out


def expected(w: int, tp: int, mode: Any, me: int) -> list:
    import math

    out: list = []
    sp = spec(w, tp, mode, me)
    for kind in KINDS:
        m = sp[kind]
        n = len(m)
        out.append((kind, "rank", m.index(me), n))
        out.append((kind, "all_gather", [[x, 10 * x] for x in m]))
        out.append((kind, "list", m))
        cols = [[x + 1 for x in m], [3 - x for x in m]]
        for name, f in (("SUM", sum), ("PRODUCT", math.prod), ("MIN", min), ("MAX", max)):
            if n == 1 and name in ("MIN", "MAX"):
                continue
            out.append((kind, name, [f(c) for c in cols]))
        for src in range(n):
            out.append((kind, "broadcast", src, [m[src], 7]))
            out.append((kind, "objects", src, [("obj", m[src]), {"k": m[src]}]))
        out.append((kind, "flag", [(m[s] + s) % 3 == 0 for s in range(n)]))
        out.append((kind, "all_sum", float(sum(m)), 0.5 * n))
    return out


def diff(rep: Report, w: int, tp: int, mode: Any, outs: list, how: str) -> None:
    for r, o in enumerate(outs):
        e = expected(w, tp, mode, r)
        if o != e:
            a, b = next((x, y) for x, y in zip(o + [None], e + [None]) if x != y)
            raise Violation(
                f"{b[0] if b else ''}-{b[1] if b else ''}",
                f"{how}: world {w}, tp {tp}, data parallelism {mode}: process {r} sees {a}, expected {b}",
            )
    rep.case((how, w, tp, mode))
    rep.count("transitions", sum(map(len, outs)))


def simulated(rep: Report, w: int) -> None:
    for tp, mode in topologies(w):
        outs = run_ranks(w, program, make_gangs=lambda root: build(root, tp, mode))
        diff(rep, w, tp, mode, outs, "simulated processes")
        rep.count("states", w)
    # The coordinator must be the first process of every gang; anything else is
    # rejected rather than silently accepted.
    from fairseq2.device import CPU
    from fairseq2.gang import FakeGang, Gangs, create_fsdp_gangs, create_parallel_gangs

    for tp in range(-1, w + 3):
        ok = tp >= 1 and w % tp == 0
        try:
            g = create_parallel_gangs(FakeGang(CPU, rank=0, size=w), tp_size=tp)
        except ValueError:
            if ok:
                raise Violation("valid-rejected", f"tp size {tp} is rejected for {w} processes") from None
            continue
        finally:
            rep.case(("tp", w, tp))
        if not ok:
            raise Violation("invalid-accepted", f"tp size {tp} is accepted for {w} processes")
        for n in range(-1, w + 3):
            ok = n > 1 and g.dp.size % n == 0
            try:
                create_fsdp_gangs(g, n)
            except ValueError:
                if ok:
                    raise Violation("valid-rejected", f"intra-node size {n} is rejected for {g.dp.size} processes") from None
                continue
            finally:
                rep.case(("intra", w, tp, n))
            if not ok:
                raise Violation("invalid-accepted", f"intra-node size {n} is accepted for {g.dp.size} processes")


def coordinator(rep: Report) -> None:
    import itertools

    from fairseq2.device import CPU
    from fairseq2.gang import FakeGang, Gangs

    for root, dp, tp, pp in itertools.product((0, 1), repeat=4):
        def fg(r: int) -> Any:
            return FakeGang(CPU, rank=r, size=2)

        ok = root != 0 or (dp, tp, pp) == (0, 0, 0)
        rep.case(("coordinator", root, dp, tp, pp))
        try:
            Gangs(root=fg(root), dp=fg(dp), rdp=fg(0), sdp=fg(0), tp=fg(tp), pp=fg(pp))
        except ValueError:
            if ok:
                raise Violation("coordinator", f"root {root} dp {dp} tp {tp} pp {pp} is rejected") from None
            continue
        if not ok:
            raise Violation(
                "coordinator", f"the coordinator process may have rank dp {dp}, tp {tp}, pp {pp} in its gangs"
            )


def sub_gangs(rep: Report, size: int) -> None:
    """create_gang() on a fake gang: ranks are validated and order is kept."""
    import itertools

    from fairseq2.device import CPU
    from fairseq2.gang import FakeGang

    for me in range(size):
        for n in range(1, size + 1):
            for ranks in itertools.product(range(-1, size + 1), repeat=n):
                ok = len(set(ranks)) == n and all(0 <= x < size for x in ranks)
                rep.case(("sub", size, me, ranks), ok)
                try:
                    g = FakeGang(CPU, rank=me, size=size).create_gang(list(ranks))
                except ValueError:
                    if ok:
                        raise Violation("sub-gang-rejected", f"ranks {ranks} of {size} are rejected") from None
                    continue
                if not ok:
                    raise Violation("sub-gang-accepted", f"ranks {ranks} are accepted for a gang of size {size}")
                if me not in ranks:
                    if g is not None:
                        raise Violation("sub-gang-member", f"process {me} is in sub-gang {ranks}")
                elif g is None or (g.rank, g.size) != (ranks.index(me), n):
                    raise Violation("sub-gang-rank", f"process {me} has the wrong rank in sub-gang {ranks}")


def nccl(rep: Report, w: int) -> None:
    """The CUDA/NCCL code path: torch's split_group() is replaced by a stand-in
    with the same contract (ranks are relative to the parent group)."""
    import torch.distributed as dist

    from fairseq2.gang import Gang

    class PG:
        def __init__(self, ranks: list[int], me: int):
            self.ranks, self.me = ranks, me

    for tp, mode in topologies(w):
        calls: dict[int, list] = {}
        for r in range(w):
            log: list = []

            def split_group(parent_pg=None, split_ranks=None, **kw: Any) -> Any:
                flat = [x for s in split_ranks for x in s]
                if len(set(flat)) != len(flat) or any(x < 0 or x >= len(parent_pg.ranks) for x in flat):
                    raise Violation("split", f"world {w} tp {tp} {mode}: invalid split {split_ranks} of {parent_pg.ranks}")
                log.append((tuple(parent_pg.ranks), tuple(map(tuple, split_ranks))))
                i = parent_pg.ranks.index(parent_pg.me)
                for s in split_ranks:
                    if i in s:
                        return PG([parent_pg.ranks[x] for x in sorted(s)], parent_pg.me)
                return None

            class Root(Gang):
                rank = r
                size = w
                device = torch.device("cuda", 0)
                supports_process_group = True

                def as_process_group(self):
                    return PG(list(range(w)), r)

                def _no(self, *a, **k):
                    raise AssertionError

                create_gang = all_gather = all_gather_to_list = all_reduce = _no
                barrier = broadcast = broadcast_objects = close = _no

            with ExitStack() as st:
                st.enter_context(patch("torch.distributed.distributed_c10d.split_group", split_group))
                st.enter_context(patch.object(dist, "get_rank", lambda g=None: g.ranks.index(g.me)))
                st.enter_context(patch.object(dist, "get_world_size", lambda g=None: len(g.ranks)))
                gangs = build(Root(), tp, mode)
                sp = spec(w, tp, mode, r)
                for kind in KINDS:
                    g = getattr(gangs, kind)
                    if (g.rank, g.size) != (sp[kind].index(r), len(sp[kind])):
                        raise Violation("nccl-rank", f"world {w} tp {tp} {mode}: process {r} is {g.rank} of {g.size} in {kind}")
                    if g.size > 1:
                        m = g.as_process_group().ranks
                        if m != sp[kind]:
                            raise Violation("nccl-members", f"world {w} tp {tp} {mode}: {kind} gang of process {r} is {m}, expected {sp[kind]}")
            for parent, splits in log:
                calls.setdefault(parent, {}).setdefault(r, []).append(splits) if isinstance(calls.get(parent), dict) else calls.__setitem__(parent, {r: [splits]})
        for parent, per in calls.items():
            if set(per) != set(parent) or len({repr(v) for v in per.values()}) != 1:
                raise Violation("nccl-collective", f"world {w} tp {tp} {mode}: processes split group {parent} differently: {per}")
        rep.case(("nccl", w, tp, mode))
        rep.count("states", w)


# -- conformance with real processes (gloo) ----------------------------------
def gloo(rep: Report, w: int) -> None:
    def worker(rank: int, root: Any) -> dict:
        out = {}
        for tp, mode in topologies(w):
            if isinstance(mode, int) and tp > 1 and 1 < mode < w // tp:
                continue  # gloo sub-gangs of sub-gangs are not supported
            out[(tp, mode)] = program(rank, build(root, tp, mode))
        return out

    outs = run_gloo(w, worker)
    for key in outs[0]:
        diff(rep, w, key[0], key[1], [o[key] for o in outs], "real processes")
        rep.count("traces_replayed", w)


def check(rep: Report) -> None:
    sizes = range(1, 13) if not rep.thorough else range(1, 25)
    jobs: list = [lambda r, w=w: simulated(r, w) for w in sizes]
    jobs += [lambda r, w=w: nccl(r, w) for w in (sizes if not rep.thorough else range(1, 65))]
    jobs += [lambda r, w=w: sub_gangs(r, w) for w in (1, 2, 3, 4)]
    jobs.append(coordinator)
    run_jobs(rep, jobs[::-1])
    for w in (1, 2, 3, 4) if not rep.thorough else (1, 2, 3, 4, 6, 8):
        run_jobs(rep, [lambda r: gloo(r, w)])
    rep.assumptions.append("torch.distributed delivers collectives correctly; NCCL split_group() behaves as documented")
