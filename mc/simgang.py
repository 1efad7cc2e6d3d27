"""A simulated multi-process gang: every rank is a logical thread of `Sched`."""

from __future__ import annotations

import copy
from typing import Any, Sequence

import torch

from mc.sched import Sched


class CollectiveMismatch(Exception):
    pass


class SimPG:
    """What SimGang.as_process_group() returns."""

    def __init__(self, gang: Any):
        self.gang = gang

    def sync_and_compute(self, metrics: dict):
        vals = self.gang._sync("sync_metrics", copy.deepcopy(dict(metrics)))
        me = self.gang.rank
        names = set(vals[0])
        for r, m in vals.items():
            if set(m) != names:
                raise CollectiveMismatch(f"metrics {sorted(m)} at rank {r}, {sorted(names)} at rank 0")
        out = {}
        for n in vals[0]:
            m = copy.deepcopy(vals[me][n])
            m.merge_state([vals[r][n] for r in sorted(vals) if r != me])
            out[n] = m.compute()
        return out


def make_world(sched: Sched | None, size: int, log: list | None = None):
    """Returns a list of `size` root gangs sharing one simulated world."""
    from fairseq2.gang import Gang, ReduceOperation

    dev = torch.device("cpu")

    class Group:
        def __init__(self, ranks: Sequence[int]):
            self.ranks = list(ranks)  # world ranks
            self.seq = [0] * len(self.ranks)
            self.slots: dict[int, dict[int, tuple[str, Any]]] = {}
            self.results: dict[int, Any] = {}

    class World:
        groups: dict[Any, Group] = {}

    world = World()
    world.groups = {}

    class SimGang(Gang):
        def __init__(self, key: Any, ranks: Sequence[int], me: int):
            self._key = key
            if key not in world.groups:
                world.groups[key] = Group(ranks)
            self._g = world.groups[key]
            assert self._g.ranks == list(ranks)
            self._rank = list(ranks).index(me)
            self._me = me
            self._nsub = 0
            self.closed = False

        def close(self) -> None:
            self.closed = True

        def create_gang(self, ranks: Sequence[int]):
            self._nsub += 1
            if len(set(ranks)) != len(ranks) or any(
                r < 0 or r >= self.size for r in ranks
            ):
                raise ValueError("bad ranks")
            wr = [self._g.ranks[r] for r in ranks]
            # Creating a sub-gang is a collective call on the parent.
            self._sync("create_gang", tuple(ranks), same=True)
            if self._me not in wr:
                return None
            return SimGang((self._key, self._nsub, tuple(wr)), wr, self._me)

        def as_process_group(self):
            return SimPG(self)

        def _sync(self, kind: str, payload: Any, same: bool = False) -> dict[int, Any]:
            g = self._g
            n = g.seq[self._rank]
            g.seq[self._rank] = n + 1
            slot = g.slots.setdefault(n, {})
            for r, (k, p) in slot.items():
                if k != kind or (same and p != payload):
                    raise CollectiveMismatch(
                        f"group {g.ranks}: collective #{n}: rank {g.ranks[r]} is in "
                        f"{k} but rank {self._me} is in {kind}"
                    )
            slot[self._rank] = (kind, payload)
            if log is not None:
                log.append((self._me, tuple(g.ranks), kind))
            if len(g.ranks) > 1:
                assert sched is not None
                sched.point(f"enter {kind}")
                sched.block(
                    lambda: len(g.slots[n]) == len(g.ranks),
                    f"{kind}#{n} on {g.ranks}",
                )
            return {r: p for r, (_, p) in g.slots[n].items()}

        def barrier(self) -> None:
            self._sync("barrier", None)

        def all_reduce(self, tensor, op) -> None:
            vals = self._sync(f"all_reduce:{op.name}", tensor.detach().clone())
            st = torch.stack([vals[r] for r in range(self.size)])
            if op == ReduceOperation.SUM:
                out = st.sum(0)
            elif op == ReduceOperation.MEAN:
                out = st.mean(0) if st.is_floating_point() else st.sum(0) // self.size
            elif op == ReduceOperation.PRODUCT:
                out = st.prod(0)
            elif op == ReduceOperation.MIN:
                out = st.min(0).values
            else:
                out = st.max(0).values
            with torch.no_grad():
                tensor.copy_(out.to(tensor.dtype))

        def all_gather(self, output_tensor, input_tensor) -> None:
            vals = self._sync("all_gather", input_tensor.detach().clone())
            with torch.no_grad():
                if output_tensor.numel() != self.size * input_tensor.numel():
                    raise ValueError("all_gather: output size mismatch")
                out = torch.cat([vals[r].reshape(-1) for r in range(self.size)])
                output_tensor.copy_(out.reshape(output_tensor.shape))

        def all_gather_to_list(self, output_tensors, input_tensor) -> None:
            vals = self._sync("all_gather_to_list", input_tensor.detach().clone())
            with torch.no_grad():
                for r in range(self.size):
                    output_tensors[r].copy_(vals[r])

        def broadcast(self, tensor, source_rank: int = 0) -> None:
            vals = self._sync(f"broadcast:{source_rank}", tensor.detach().clone())
            if self._rank != source_rank:
                with torch.no_grad():
                    tensor.copy_(vals[source_rank])

        def broadcast_objects(self, objects, source_rank: int = 0) -> None:
            vals = self._sync(f"broadcast_objects:{source_rank}", list(objects))
            if self._rank != source_rank:
                for i, o in enumerate(vals[source_rank]):
                    objects[i] = copy.deepcopy(o)

        @property
        def rank(self) -> int:
            return self._rank

        @property
        def size(self) -> int:
            return len(self._g.ranks)

        @property
        def device(self):
            return dev

        @property
        def supports_process_group(self) -> bool:
            return False

        @property
        def world_ranks(self) -> list[int]:
            return list(self._g.ranks)

    return [SimGang("root", range(size), r) for r in range(size)]


def run_ranks(size: int, fn, ctl=None, tp_size: int = 1, make_gangs=None):
    """Runs fn(rank, gangs) on every rank of a simulated world under a
    deterministic (ctl=None) or explored schedule. Returns list of results."""
    from fairseq2.gang import create_parallel_gangs

    sched = Sched(ctl)
    roots = make_world(sched, size)
    ts = []

    def main(r: int):
        if make_gangs is None:
            gangs = create_parallel_gangs(roots[r], tp_size=tp_size)
        else:
            gangs = make_gangs(roots[r])
        return fn(r, gangs)

    for r in range(size):
        ts.append(sched.spawn(f"r{r}", lambda r=r: main(r), data=r))
    sched.run()
    return [t.result for t in ts]
