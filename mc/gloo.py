"""Runs a function in real processes connected with gloo (conformance runs)."""

from __future__ import annotations

import os
import pickle
import socket
import traceback
from typing import Any, Callable

from mc.report import Violation


def run_gloo(w: int, fn: Callable[[int, Any], Any], key: str = "gloo-error") -> list:
    """fn(rank, root gang) runs in w processes; returns their results."""
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    fds, pids = [], []
    for r in range(w):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            _worker(r, w, port, wr, fn)
        os.close(wr)
        fds.append(rd)
        pids.append(pid)
    outs = []
    for fd in fds:
        with os.fdopen(fd, "rb") as f:
            raw = f.read()
        outs.append(pickle.loads(raw) if raw else (None, "process died", None))
    for p in pids:
        os.waitpid(p, 0)
    # The other processes fail as well once one of them has ended.
    for _, msg, _ in outs:
        if isinstance(msg, tuple):
            raise Violation(*msg)
    for r, (_, msg, tb) in enumerate(outs):
        if msg is not None:
            raise Violation(key, f"world {w}: process {r}: {msg}", tb)
    return [o for o, _, _ in outs]


def _worker(rank: int, w: int, port: int, wfd: int, fn: Callable) -> None:
    os.environ.update(
        RANK=str(rank), WORLD_SIZE=str(w), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port),
        LOCAL_RANK=str(rank), LOCAL_WORLD_SIZE=str(w),
    )
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # Gloo is chatty
    os.dup2(null, 2)
    out, msg, tb = None, None, None
    try:
        from datetime import timedelta

        from fairseq2.device import CPU
        from fairseq2.gang import ProcessGroupGang

        root = ProcessGroupGang.create_default_process_group(CPU, timeout=timedelta(seconds=120))
        out = fn(rank, root)
        root.barrier()
        root.close()
    except Violation as v:
        msg = (v.key, v.msg, v.detail)
    except BaseException as ex:  # noqa: BLE001
        tb = traceback.format_exc()
        msg = f"{ex!r} (cause {ex.__cause__!r})"
    with os.fdopen(wfd, "wb") as f:
        pickle.dump((out, msg, tb), f)
    os._exit(0)
