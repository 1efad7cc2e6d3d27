"""T02: interrupting and resuming training changes nothing.

Explicit-state search over the durable states a training run can leave behind:
from every state a fresh process (real Trainer, checkpoint manager, data
reader, optimizer, LR scheduler, validator) is started and runs to the end;
every durable state it passes through is a crash state and is searched in turn
(so any number of crashes is covered; the closure is finite)."""

from __future__ import annotations

import hashlib
from collections import deque
from typing import Any

from checks.train_common import Cfg, Rig
from mc.memfs import State
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.sched import make_inline_pool

LEVEL = "model_checking"

MUT = {"write", "write2", "create", "move", "unlink", "mkdir", "rmdir"}


def lazy_pool(k: int) -> Any:
    """A background write that completes at the k-th poll."""
    n = {"n": 0}

    def when() -> bool:
        n["n"] += 1
        return n["n"] % (k + 1) == k

    return make_inline_pool(when)


def digest(st: State) -> bytes:
    h = hashlib.blake2b(digest_size=16)
    for k, v in st.key():
        h.update(k.encode())
        h.update(v if isinstance(v, bytes) else v.encode())
        h.update(b"\0")
    return h.digest()


def steps_of(events: list[tuple]) -> list[tuple]:
    """[(step, (batch uids...))] of the applied steps."""
    out: list[list] = []
    for e in events:
        if e[0] == "step":
            out.append([e[1], []])
        elif e[0] == "batch":
            out[-1][1].append(e[2])
    return [(a, tuple(b)) for a, b in out]


def epoch_at(events: list[tuple]) -> list[tuple]:
    """(step, data epoch the step ran in)"""
    cur, out = None, []
    for e in events:
        if e[0] == "epoch":
            cur = e[1]
        elif e[0] == "step":
            out.append((e[1], cur))
    return out


def published(events: list[tuple], cat: str) -> list[tuple]:
    return [(e[2], e[3]) for e in events if e[0] == "publish" and e[1] == cat]


def stopped_steps(stopped: set) -> set[int]:
    return {n for _, n in stopped}


def near(a: Any, b: Any) -> bool:
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def compare(cfg: Cfg, ref: Rig, k: int, rig: Rig, where: str, stopped: set[int]) -> None:
    """The run `rig`, resumed from step k, continues exactly like `ref`."""

    def bad(key: str, msg: str) -> None:
        raise Violation(key, f"{where}: {msg}", {"cfg": repr(cfg)})

    # overflowed attempts have no lasting effect, except that they consume data
    want = [s for s in steps_of(ref.events) if s[0] > k]
    got = steps_of(rig.events)
    tail = want
    if cfg.fp16 and got:
        # An attempt that overflowed right after step k is repeated only if the
        # checkpoint precedes it; the sequence from step k + 1 is the same.
        tail = want
    if got != tail:
        bad("steps", f"after resuming from step {k} trains {got} instead of {tail}")
    we = [e for e in epoch_at(ref.events) if e[0] > k]
    if epoch_at(rig.events) != we:
        bad("epoch", f"data epochs after step {k}: {epoch_at(rig.events)} instead of {we}")
    if not near(ref.final(), rig.final()):
        bad("params", f"resuming from step {k} ends with {rig.final()} instead of {ref.final()}")
    for cat in ("train", "valid"):
        wp = [p for p in published(ref.events, cat) if p[0] > k or k == 0]
        gp = published(rig.events, cat)
        if k > 0 and k in stopped_steps(stopped):
            # after a stop at an epoch boundary, the boundary is reached again
            gp = [p for p in gp if p[0] > k]
        if [p[0] for p in gp] != [p[0] for p in wp]:
            bad(f"published-{cat}", f"from step {k} publishes {cat} metrics at {[p[0] for p in gp]} instead of {[p[0] for p in wp]}")
        aligned = k == 0 or k in [p[0] for p in published(ref.events, cat)]
        for i, ((n, w), (_, g)) in enumerate(zip(wp, gp)):
            if i == 0 and cat == "train" and not aligned:
                keys = [x for x in w if x.startswith("total_") or x in ("lr", "data_epoch")]
            else:
                keys = list(w)
            if set(w) != set(g):
                bad(f"published-{cat}", f"step {n}: publishes {sorted(g)} instead of {sorted(w)}")
            for x in keys:
                if w[x] != g[x]:
                    bad(
                        f"metric-{x}",
                        f"{cat} metric {x} of step {n} is {g[x]} after resuming from step {k}, {w[x]} without interruption",
                    )
    ws = [e[1] for e in ref.events if e[0] == "saved" and e[1] > k]
    gs = [e[1] for e in rig.events if e[0] == "saved"]
    if gs != ws:
        bad("saved", f"from step {k} saves {gs} instead of {ws}")


def last_full(state: State) -> int:
    from checks.ckpt_common import fake_gangs, make_manager
    from mc.memfs import make_memfs

    m = make_manager(make_memfs(state), fake_gangs())
    return m.maybe_get_last_step_number(exclude_model_only=True) or 0


def search(rep: Report, cfg: Cfg, polls: list[int], max_states: int = 10**6) -> None:
    ref = Rig(cfg, pool=lazy_pool(1))
    ref.run()
    first = State()
    seen = {digest(first)}
    todo: deque = deque([(first, "fresh start", set(), 0)])
    depth = 10**6 if rep.thorough else 2
    if "keep_last_n_checkpoints" in cfg.args:
        # deletions leave any subset of a directory behind
        depth = 2 if rep.thorough else 1
    keep_all = "keep_last_n_checkpoints" not in cfg.args
    while todo:
        st, how, stopped, nc = todo.popleft()
        rep.count("states")
        k = last_full(st)
        stops: list = [None]
        if not cfg.fp16:
            # additionally: a stop request at every event of the run
            for e in ref.events:
                if e[0] in ("step", "validate", "saved") and e[1] >= k:
                    stops.append((e[0], e[1]))
                elif e[0] == "publish" and e[2] >= k:
                    stops.append((e[0], e[2]))
                elif e[0] == "epoch":
                    stops.append((e[0], e[1]))
            stops = list(dict.fromkeys(stops))
        # Stop requests are explored from the fresh start (thorough: from every
        # state without an earlier stop); crashes compose without limit.
        if stopped or (st is not first and not rep.thorough):
            stops = [None]
        for pk in polls:
            for stop in stops if pk == polls[0] else [None]:
                run_one(rep, cfg, ref, st, how, k, pk, stop, stopped, seen, todo, keep_all, nc, depth)
        if rep.counters["states"] > max_states:
            rep.cov["exhaustive"] = False
            break


def run_one(rep, cfg, ref, st, how, k, pk, stop, stopped, seen, todo, keep_all, nc, depth) -> None:
    s = st.copy()
    best = {"k": k}
    where = f"{how}; background writes take {pk} polls" + (f"; stop requested at {stop}" if stop else "")

    def hook(kind: str, path: str) -> None:
        if kind not in MUT:
            return
        rep.count("transitions")
        d = digest(s)
        if d in seen:
            return
        seen.add(d)
        lf = last_full(s)
        if lf < best["k"]:
            raise Violation(
                "progress-lost",
                f"{where}: the checkpoint at step {best['k']} was on disk, but a crash before "
                f"{kind} {path} leaves step {lf} as the last one",
                {"cfg": repr(cfg), "files": s.listing()},
            )
        best["k"] = lf
        ns = set(stopped)
        if stop is not None:
            # a crash while stopping: the checkpoint may be that of the stop
            ns |= {("stopped", x) for x in range(100)}
        if nc >= depth or (stopped and not rep.thorough):
            return
        h = f"{how} > resume at {k}, killed before {kind} {path.rsplit('/', 1)[-1]}"
        if stop:
            h += f" (stop at {stop})"
        todo.append((s.copy(), h[-400:], ns, nc + 1))

    rig = Rig(cfg.with_(stop_at=stop), s, hook, lazy_pool(pk))
    out = rig.run()
    rep.case((repr(cfg), digest(st), pk, stop))
    if out == "stopped" and stop is not None:
        got = steps_of(rig.events)
        n = got[-1][0] if got else k
        # where the request fell
        idx = next(i for i, e in enumerate(rig.events) if (e[0], e[2] if e[0] == "publish" else e[1]) == stop)
        later = [e for e in rig.events[idx + 1 :] if e[0] == "step"]
        if len(later) > 1:
            raise Violation("stop-ignored", f"{where}: {len(later)} more steps ran after the stop request", {"cfg": repr(cfg)})
        disk = rig.disk()
        want = n
        if disk.get(want) is None or want != max(disk):
            raise Violation("stop-checkpoint", f"{where}: stopped after step {n} but the checkpoints are {disk}", {"cfg": repr(cfg)})
        if not cfg.args.get("save_model_only") and disk[want] != "full":
            raise Violation("stop-checkpoint", f"{where}: the last checkpoint cannot be resumed from: {disk}")
        want_steps = [x for x in steps_of(ref.events) if k < x[0] <= n]
        if got != want_steps:
            raise Violation("stop-steps", f"{where}: trained {got} instead of {want_steps}")
        d = digest(s)
        if d not in seen:
            seen.add(d)
            todo.append((s.copy(), f"{how} > stopped at step {n} on request at {stop}", stopped | {("stopped", n)}, nc))
        # resuming this state is compared with the reference run
        return
    if out == "done" or stop is not None:
        if cfg.args.get("save_model_only") == "all":
            k = 0
        extra = stopped
        if extra:
            # a stop may add a checkpoint and a publication between regular ones;
            # from there on the run is the reference run
            pass
        compare(cfg, ref, k, rig, where, stopped)
        # (a crash in the clean-up after the very last save leaves stale files)
        saved = any(e[0] == "saved" for e in rig.events)
        if not stopped and stop is None and keep_all and saved:
            a, b = ref.disk(), rig.disk()
            if a != b:
                raise Violation("final-checkpoints", f"{where}: the run ends with checkpoints {b} instead of {a}", {"cfg": repr(cfg)})


def configs(thorough: bool) -> list[tuple[str, Cfg, list[int]]]:
    def kw(**k: Any) -> tuple:
        return tuple(k.items())

    out = [
        ("steps", Cfg(kw=kw(max_num_steps=5, checkpoint_every_n_steps=2, publish_metrics_every_n_steps=1)), [1]),
        ("steps-valid", Cfg(valid=True, kw=kw(max_num_steps=5, checkpoint_every_n_steps=2, validate_every_n_steps=2, publish_metrics_every_n_steps=2, validate_at_start=True)), [2]),
        ("keep-last", Cfg(targets=False, kw=kw(max_num_steps=5, checkpoint_every_n_steps=1, keep_last_n_checkpoints=1, publish_metrics_every_n_steps=1)), [1]),
        ("epochs", Cfg(sizes=(1, 2), kw=kw(max_num_data_epochs=3, checkpoint_every_n_data_epochs=1, publish_metrics_every_n_data_epochs=1)), [1]),
        ("mid-epoch", Cfg(sizes=(1, 2, 1), kw=kw(max_num_data_epochs=2, checkpoint_every_n_steps=2, publish_metrics_every_n_steps=1)), [3]),
        ("steps-and-epochs", Cfg(sizes=(1, 2), kw=kw(max_num_steps=7, max_num_data_epochs=3, checkpoint_every_n_steps=2, checkpoint_every_n_data_epochs=1, publish_metrics_every_n_steps=1, publish_metrics_every_n_data_epochs=1)), [1]),
        ("fp16", Cfg(fp16=True, overflow=((1, 1), (2, 2)), kw=kw(max_num_steps=5, checkpoint_every_n_steps=1, publish_metrics_every_n_steps=1)), [1]),
        ("accumulate", Cfg(sizes=(1, 2, 1), accumulate=2, kw=kw(max_num_steps=4, checkpoint_every_n_steps=1, publish_metrics_every_n_steps=1)), [2]),
        ("clip", Cfg(accumulate=2, drop_remainder=True, sizes=(2, 1, 3), kw=kw(max_num_steps=4, max_grad_norm=0.5, checkpoint_every_n_steps=3, publish_metrics_every_n_steps=3)), [1]),
        ("all-but-last", Cfg(kw=kw(max_num_steps=4, checkpoint_every_n_steps=1, save_model_only="all_but_last", publish_metrics_every_n_steps=1)), [1]),
        ("best", Cfg(valid=True, kw=kw(max_num_steps=4, checkpoint_every_n_steps=1, validate_every_n_steps=1, keep_best_n_checkpoints=1, keep_last_n_checkpoints=1, publish_metrics_every_n_steps=1)), [1]),
    ]
    if thorough:
        out = [(n, c, sorted(set(p + [0, 1, 2, 4]))) for n, c, p in out]
        out += [
            ("steps-8", Cfg(kw=kw(max_num_steps=8, checkpoint_every_n_steps=3, publish_metrics_every_n_steps=1)), [1, 3]),
            ("epochs-after", Cfg(sizes=(1, 2), kw=kw(max_num_data_epochs=4, checkpoint_after_n_data_epochs=1, checkpoint_every_n_data_epochs=2, publish_metrics_every_n_data_epochs=1)), [1, 3]),
            ("fp16-acc", Cfg(fp16=True, accumulate=2, overflow=((1, 1), (2, 2)), kw=kw(max_num_steps=6, checkpoint_every_n_steps=2, publish_metrics_every_n_steps=1)), [1, 2]),
        ]
    return out


def check(rep: Report) -> None:
    rep.assumptions += [
        "a crash loses everything but the file-system state; file-system effects persist in order",
        "the data pipeline restores its position exactly (the native pipeline is replaced by an equivalent Python one)",
    ]

    def job(name: str, cfg: Cfg, polls: list[int]):
        def go(r: Report) -> None:
            search(r, cfg, polls)
            r.part(name, states=r.counters.get("states", 0), runs=r.counters.get("evaluations", 0))
            r.sample({"config": name, "cfg": repr(cfg)})

        return go

    run_jobs(rep, [job(*c) for c in configs(rep.thorough)])
