"""T04: gradients of a distributed, accumulated step.

For every way to spread example counts over processes, accumulation
micro-batches and steps, the real Trainer on every rank of a simulated world
(data parallel wrapper with DDP semantics) ends with the parameters that one
process obtains from the concatenated data."""

from __future__ import annotations

import itertools
from contextlib import contextmanager
from typing import Any

from checks.train_common import DT, Batch, Cfg, Net, Rig

import torch
from torch import Tensor
from torch.nn import Module

from mc.par import run_jobs
from mc.report import Report, Violation
from mc.sched import Deadlock
from mc.simgang import CollectiveMismatch, run_ranks

LEVEL = "exploration"


def sim_ddp(net: Module, gang: Any, log: list | None = None) -> Module:
    """A module wrapper with the semantics of DistributedDataParallel."""
    from fairseq2.gang import ReduceOperation
    from fairseq2.nn.data_parallel import DataParallelFacade, set_data_parallel_facade
    from fairseq2.nn.utils.grad import clip_grad_norm
    from fairseq2.nn.utils.module import load_state_dict

    class SimDDP(Module):
        def __init__(self) -> None:
            super().__init__()
            self.module = net
            self.sync = True
            self.fired: set[int] = set()
            self.params = list(net.parameters())
            for i, p in enumerate(self.params):
                p.register_post_accumulate_grad_hook(lambda p, i=i: self.on_grad(i))

        def on_grad(self, i: int) -> None:
            if not self.sync or gang.size == 1:
                return
            self.fired.add(i)
            if len(self.fired) == len(self.params):
                self.fired.clear()
                flat = torch.cat([p.grad.reshape(-1) for p in self.params])
                gang.all_reduce(flat, ReduceOperation.MEAN)
                if log is not None:
                    log.append("reduce")
                k = 0
                for p in self.params:
                    n = p.numel()
                    p.grad.copy_(flat[k : k + n].reshape(p.shape))
                    k += n

        def forward(self, x: Tensor) -> Tensor:
            return self.module(x)

    m = SimDDP()

    class Facade(DataParallelFacade):
        def state_dict(self):
            return net.state_dict()

        def load_state_dict(self, sd):
            load_state_dict(net, sd)

        @contextmanager
        def no_sync(self):
            old, m.sync = m.sync, False
            try:
                yield
            finally:
                m.sync = old

        def clip_grad_norm(self, max_norm):
            return clip_grad_norm(m, max_norm)

        @contextmanager
        def summon_full_parameters(self):
            yield

    set_data_parallel_facade(m, Facade())
    return m


def examples(rank: int, i: int, n: int) -> Batch:
    k = 13 * rank + 5 * i
    x = [[(k + j) % 4 - 1.0, (k * 3 + j) % 5 / 2, 1.0] for j in range(n)]
    y = [float((k + 2 * j) % 3) for j in range(n)]
    return Batch((rank, i), x, y)


def sgd(params: Any) -> Any:
    return torch.optim.SGD(params, lr=0.05, momentum=0.9)


def reference(counts: Any, acc: int, targets: bool, max_norm: float | None) -> tuple[dict, list[float]]:
    """Single process, written from the definition."""
    from fairseq2.optim.lr_schedulers import MyleLR

    net = Net()
    opt = sgd(net.parameters())
    sched = MyleLR(opt, num_warmup_steps=4)
    norms = []
    world = len(counts)
    nsteps = len(counts[0]) // acc
    for s in range(nsteps):
        total = sum(counts[r][s * acc + a] for r in range(world) for a in range(acc))
        opt.zero_grad()
        loss = torch.zeros((), dtype=DT)
        for r in range(world):
            for a in range(acc):
                b = examples(r, s * acc + a, counts[r][s * acc + a])
                l = ((net(b.x) - b.y) ** 2).sum()
                if targets:
                    loss = loss + l / max(total, 1)
                else:
                    loss = loss + l / len(b) / (world * acc)
        loss.backward()
        g = torch.sqrt(sum((p.grad**2).sum() for p in net.parameters()))
        norms.append(g.item())
        if max_norm is not None and g > max_norm:
            for p in net.parameters():
                p.grad *= max_norm / (g + 1e-6)  # as torch.nn.utils.clip_grad_norm_
        opt.step()
        sched.step()
    return {k: v.detach() for k, v in net.state_dict().items()}, norms


def run_world(counts: Any, acc: int, targets: bool, no_sync: bool, max_norm: float | None, tp: int = 1) -> list[Rig]:
    from mc.memfs import State

    state = State()
    world = len(counts) * tp

    def main(rank: int, gangs: Any) -> Rig:
        dr = gangs.dp.rank
        cfg = Cfg(
            targets=targets,
            accumulate=acc,
            noise=False,
            kw=tuple(
                dict(
                    max_num_data_epochs=1,
                    no_sync_grad_accumulation=no_sync,
                    max_grad_norm=max_norm,
                    grad_check=True,
                    publish_metrics_every_n_steps=1,
                ).items()
            ),
        )
        data = [examples(dr, i, n) for i, n in enumerate(counts[dr])]
        rig = Rig(
            cfg,
            state,
            gangs=gangs,
            wrap=lambda net: sim_ddp(net, gangs.dp),
            data=lambda e: data,
            optimizer=sgd,
        )
        rig.run()
        return rig

    return run_ranks(world, main, tp_size=tp)


def one(rep: Report, counts: Any, acc: int, targets: bool, no_sync: bool, max_norm: float | None, tp: int = 1) -> None:
    where = f"examples per process and micro-batch {counts}, accumulate {acc}, no_sync {no_sync}, max norm {max_norm}, tp {tp}"
    rep.case(where + str(targets), nontrivial=len({c for r in counts for c in r}) > 1)
    try:
        rigs = run_world(counts, acc, targets, no_sync, max_norm, tp)
    except (Deadlock, CollectiveMismatch) as ex:
        raise Violation("collective", f"{where}: processes diverge: {ex}")
    want, norms = reference(counts, acc, targets, max_norm)
    for r, rig in enumerate(rigs):
        got = rig.model.state_dict()
        for k in want:
            if not torch.allclose(got[k], want[k], rtol=1e-5, atol=1e-7):
                raise Violation("params", f"{where}: rank {r} ends with {k} = {got[k].tolist()} instead of {want[k].tolist()}")
    ev = [e for e in rigs[0].events if e[0] == "publish"]
    for i, e in enumerate(ev):
        v = e[3]
        if abs(v["grad_norm"] - norms[i]) > 1e-6 * (1 + norms[i]):
            raise Violation("grad-norm", f"{where}: step {i + 1} reports gradient norm {v['grad_norm']} instead of {norms[i]}")
        tot = sum(counts[r][i * acc + a] for r in range(len(counts)) for a in range(acc))
        if v["examples"] != tot:
            raise Violation("metric", f"{where}: step {i + 1} reports {v['examples']} examples instead of {tot}")
        cum = sum(counts[r][j] for r in range(len(counts)) for j in range((i + 1) * acc))
        if v["total_examples"] != cum:
            raise Violation("metric-total", f"{where}: step {i + 1} reports {v['total_examples']} total examples instead of {cum}")
    if any(e[0] == "publish" for rig in rigs[1:] for e in rig.events):
        raise Violation("publish-rank", f"{where}: metrics are recorded by more than one process")


def shapes(thorough: bool) -> list[tuple[int, int, int, tuple, int]]:
    # world, accumulate, steps, possible counts, tp
    out = [
        (1, 1, 2, (0, 1, 2, 3), 1),
        (1, 2, 2, (0, 1, 3), 1),
        (1, 3, 1, (0, 1, 2), 1),
        (2, 1, 2, (0, 1, 3), 1),
        (2, 2, 1, (0, 1, 3), 1),
        (3, 1, 1, (0, 1, 2, 4), 1),
        (2, 1, 1, (0, 1, 2), 2),
        (1, 2, 1, (1, 2), 2),
    ]
    if thorough:
        out += [(2, 2, 2, (0, 2), 1), (3, 2, 1, (0, 1, 3), 1), (4, 1, 1, (0, 1, 3), 1), (2, 3, 1, (0, 1, 3), 1), (2, 2, 1, (0, 1, 3), 2)]
    return out


def check(rep: Report) -> None:
    rep.assumptions.append("DistributedDataParallel averages gradients over the data parallel group when synchronisation is on")

    def job(w: int, acc: int, steps: int, vals: tuple, tp: int):
        def go(r: Report) -> None:
            n = acc * steps
            for flat in itertools.product(vals, repeat=w * n):
                counts = tuple(flat[i * n : (i + 1) * n] for i in range(w))
                for no_sync, mn in ((False, None), (True, 0.75)) if acc > 1 else ((False, None), (False, 0.75)):
                    one(r, counts, acc, True, no_sync, mn, tp)
                if 0 not in flat:
                    one(r, counts, acc, False, acc > 1, None, tp)
            r.part(f"world{w}-acc{acc}-steps{steps}-tp{tp}", cases=r.counters["evaluations"])

        return go

    run_jobs(rep, [job(*s) for s in shapes(rep.thorough)])
    rep.sample({"shapes (world, accumulate, steps, counts, tp)": [repr(s) for s in shapes(rep.thorough)]})
