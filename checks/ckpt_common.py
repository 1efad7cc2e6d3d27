"""Shared harness pieces for the checkpoint checks."""

from __future__ import annotations

from pathlib import Path
from typing import Any

from mc import boot  # noqa: F401

import torch

from mc.memfs import DIR, Crash, State, make_memfs

ROOT = Path("/mcfs/run")
CKPT = ROOT.joinpath("checkpoints")


class Box:
    """A Stateful whose state is a plain dict."""

    def __init__(self, state: dict[str, Any] | None = None):
        self.state = state

    def state_dict(self) -> dict[str, Any]:
        return self.state

    def load_state_dict(self, sd: dict[str, Any]) -> None:
        self.state = sd


def content(step: int, ver: int, who: str = "r0") -> dict[str, dict[str, Any]]:
    """What a process `who` stores for `step` (version `ver`)."""
    t = float(step * 10 + ver)
    return {
        "trainer": {"step": step, "ver": ver, "who": who},
        "model": {"w": torch.tensor([t, hash_who(who)])},
        "optimizer": {"o": torch.tensor([t, hash_who(who)]), "n": ver, "who": who},
        "data_reader": {"pos": step, "ver": ver, "who": who},
    }


def hash_who(who: str) -> float:
    return float(sum(ord(c) * (i + 1) for i, c in enumerate(who)) % 997)


def same(a: Any, b: Any) -> bool:
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return (
            isinstance(a, torch.Tensor)
            and isinstance(b, torch.Tensor)
            and a.shape == b.shape
            and a.dtype == b.dtype
            and bool(torch.equal(a, b))
        )
    if isinstance(a, dict) and isinstance(b, dict):
        return list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def make_manager(fs: Any, gangs: Any, pool: Any = None) -> Any:
    from fairseq2.checkpoint.manager import StandardCheckpointManager
    from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader

    if pool is None:
        from mc.sched import make_inline_pool

        pool = make_inline_pool()
    return StandardCheckpointManager(
        ROOT,
        gangs,
        fs,
        _TorchTensorFileLoader(fs),
        _TorchTensorFileDumper(fs),
        pool,
    )


def fake_gangs():
    from fairseq2.device import CPU
    from fairseq2.gang import create_fake_gangs

    return create_fake_gangs(CPU)


def subtree(state: State, prefix: str) -> tuple:
    return tuple(
        sorted(
            (k, "D" if v is DIR else bytes(v))
            for k, v in state.nodes.items()
            if k == prefix or k.startswith(prefix + "/")
        )
    )
