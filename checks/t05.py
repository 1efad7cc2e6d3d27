"""T05: a step whose gradients overflow leaves no trace.

Exhaustive over the set of overflowing batches: the fp16 run in which they
overflow is compared with the run over data that does not contain them."""

from __future__ import annotations

import itertools
from typing import Any

from checks.train_common import Cfg, Rig
from mc.par import run_jobs
from mc.report import Report, Violation

LEVEL = "exploration"


def applied(events: list[tuple], lost: set) -> list[tuple]:
    """Events without the attempts that contain an overflowing batch."""
    out: list[tuple] = []
    cur: list[tuple] = []
    bad = False
    for e in events:
        if e[0] == "step":
            if not bad:
                out += cur
            cur, bad = [e], False
        elif e[0] == "batch":
            cur.append(e)
            bad = bad or e[2] in lost
        else:
            if not bad:
                out += cur
            cur, bad = [], False
            out.append(e)
    return out + ([] if bad else cur)


def run_pair(rep: Report, cfg: Cfg, lost: tuple) -> None:
    from fairseq2.recipe.error import MinimumLossScaleReachedError

    a = Rig(cfg.with_(fp16=True, overflow=lost))
    ra = a.run()
    if cfg.accumulate == 1:
        b = Rig(cfg.with_(drop=lost))
    else:
        gone = []
        for e in range(1, 10):
            uids = [(e, i) for i in range(len(cfg.sizes))]
            k = (e - 1) % len(uids)
            uids = uids[k:] + uids[:k]
            for i in range(0, len(uids), cfg.accumulate):
                g = uids[i : i + cfg.accumulate]
                if set(g) & set(lost):
                    gone += g
        b = Rig(cfg.with_(drop=tuple(gone)))
    rb = b.run()
    rep.case((repr(cfg), lost), nontrivial=bool(lost))

    def bad(key: str, msg: str) -> None:
        raise Violation(key, f"overflow in {lost}: {msg}", {"cfg": repr(cfg)})

    if ra != rb:
        bad("result", f"run ends as {ra} instead of {rb}")
    if a.final() != b.final():
        bad("params", f"parameters {a.final()} instead of {b.final()}")
    oa, ob = a.optimizer.state_dict(), b.optimizer.state_dict()
    if repr(oa) != repr(ob):
        bad("optimizer", f"optimizer state {oa} instead of {ob}")
    if a.lr.state_dict() != b.lr.state_dict():
        bad("lr", "learning rate scheduler state differs")
    sa = [e for e in a.events if e[0] == "saved"]
    sb = [e for e in b.events if e[0] == "saved"]
    if sa != sb:
        bad("saved", f"saves {sa} instead of {sb}")
    # (when a background save is noticed is not part of the property)
    ea = applied([e for e in a.events if e[0] != "saved"], set(lost))
    eb = [e for e in b.events if e[0] != "saved"]
    if ea != eb:
        i = next((i for i, (x, y) in enumerate(zip(ea, eb)) if x != y), min(len(ea), len(eb)))
        bad("events", f"event {i}: {ea[i:i + 1]} instead of {eb[i:i + 1]}")
    if sorted(a.disk()) != sorted(b.disk()):
        bad("disk", f"checkpoints {a.disk()} instead of {b.disk()}")
    for s in a.disk():
        ma, mb = a.fresh_manager(), b.fresh_manager()
        for kind in ("trainer", "model", "optimizer"):
            from checks.ckpt_common import Box

            xa, xb = Box(), Box()
            getattr(ma, f"load_{kind}_state")(s, xa)
            getattr(mb, f"load_{kind}_state")(s, xb)
            da, db = dict(xa.state), dict(xb.state)
            da.pop("_fp16_loss_scaler", None)
            db.pop("_fp16_loss_scaler", None)
            if repr(da) != repr(db):
                bad("checkpoint", f"{kind} state of step {s} is {da} instead of {db}")


def check(rep: Report) -> None:
    def kw(**k: Any) -> tuple:
        return tuple(k.items())

    sched = dict(checkpoint_every_n_steps=2, publish_metrics_every_n_steps=1)
    cfgs = [
        (Cfg(sizes=(1, 2, 1), noise=False, kw=kw(max_num_data_epochs=2, **sched)), 2),
        (Cfg(sizes=(1, 2, 1), noise=False, targets=False, kw=kw(max_num_steps=4, max_num_data_epochs=3, **sched)), 2),
        (Cfg(sizes=(1, 2, 1, 2), accumulate=2, noise=False, kw=kw(max_num_data_epochs=2, max_grad_norm=0.5, **sched)), 2),
        (Cfg(sizes=(1, 2), noise=False, valid=True, kw=kw(max_num_data_epochs=2, validate_every_n_steps=2, publish_metrics_every_n_steps=2, checkpoint_every_n_data_epochs=1)), 2),
    ]
    if rep.thorough:
        cfgs += [
            (Cfg(sizes=(1, 2, 1, 3, 2), noise=False, kw=kw(max_num_data_epochs=2, **sched)), 2),
            (Cfg(sizes=(1, 2, 1), noise=False, kw=kw(max_num_data_epochs=3, **sched)), 3),
        ]

    def job(cfg: Cfg, ep: int):
        def go(r: Report) -> None:
            uids = [(e, i) for e in range(1, ep + 1) for i in range(len(cfg.sizes))]
            for m in range(1 << len(uids)):
                run_pair(r, cfg, tuple(u for j, u in enumerate(uids) if m >> j & 1))

        return go

    run_jobs(rep, [job(*c) for c in cfgs])
    rep.sample({"configs": [repr(c) for c, _ in cfgs]})
    rep.assumptions.append("torch's GradScaler arithmetic on CPU tensors equals the one on CUDA tensors")
