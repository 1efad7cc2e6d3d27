"""C01: crash-consistent checkpoints (single process, local file system).

Explicit-state search over the *durable* states of the checkpoint directory.
States are reached by running the real StandardCheckpointManager over an
in-memory file system.  From every reached state every operation is run to
completion and, separately, killed before each of its file-system effects (and
failed with an I/O error at each of them); after every one of these the state
is observed through a fresh manager and compared with a reference model.
"""

from __future__ import annotations

from collections import deque
from typing import Any

from checks.ckpt_common import CKPT, Box, content, fake_gangs, make_manager, same
from mc.memfs import Crash, State, make_memfs
from mc.report import Report, Violation

LEVEL = "model_checking"

KINDS = ("trainer", "model", "optimizer", "data_reader")

Entry = tuple  # ("full"|"model", ver)
Abs = tuple  # (tuple(sorted((step, entry))), tuple(sorted((step, score))))


def observe(state: State, steps: list[int], memo: dict) -> tuple[dict, dict]:
    """What a restarted process sees through the public API."""
    k = state.key()
    if k in memo:
        r = memo[k]
        if isinstance(r, Violation):
            raise r
        return dict(r[0]), dict(r[1])
    try:
        r = _observe(state, steps)
    except Violation as v:
        memo[k] = v
        raise
    memo[k] = r
    return dict(r[0]), dict(r[1])


def _observe(state: State, steps: list[int]) -> tuple[dict, dict]:
    st = state.copy()
    m = make_manager(make_memfs(st), fake_gangs())
    try:
        all_steps = m.get_step_numbers()
        full = m.get_step_numbers(exclude_model_only=True)
    except Exception as ex:
        raise Violation("listing-fails", f"listing checkpoints fails after restart: {ex!r}")
    if all_steps != sorted(set(all_steps)) or not set(full) <= set(all_steps):
        raise Violation("listing", f"inconsistent listing {all_steps} / {full}")
    if m.has_checkpoint() != bool(all_steps) or m.has_checkpoint(
        exclude_model_only=True
    ) != bool(full):
        raise Violation("has-checkpoint", "has_checkpoint() disagrees with the listing")
    if m.maybe_get_last_step_number() != (all_steps[-1] if all_steps else None):
        raise Violation("last-step", "last step number is not the largest listed one")
    if m.maybe_get_last_step_number(exclude_model_only=True) != (
        full[-1] if full else None
    ):
        raise Violation("last-step", "last full step number is not the largest one")
    entries: dict[int, Entry] = {}
    for s in all_steps:
        if s not in steps:
            raise Violation("phantom", f"step {s} is listed but was never saved")
        kinds = KINDS if s in full else ("model",)
        got = {}
        for kind in kinds:
            b = Box()
            try:
                getattr(m, f"load_{kind}_state")(s, b)
            except Exception as ex:
                raise Violation(
                    "listed-but-not-loadable",
                    f"step {s} is listed as a {'full' if s in full else 'model'} checkpoint "
                    f"but its {kind} state cannot be loaded: {ex!r}",
                    {"files": state.listing()},
                )
            got[kind] = b.state
        vers = [v for v in (0, 1) if all(same(got[k], content(s, v)[k]) for k in kinds)]
        if not vers:
            raise Violation(
                "mixed-content",
                f"step {s} does not hold the state of any single save: {got}",
                {"files": state.listing()},
            )
        entries[s] = ("full" if s in full else "model", vers[0])
    try:
        sc = m.load_scores()
    except Exception as ex:
        raise Violation(
            "scores-unreadable",
            f"scores cannot be loaded after a restart: {ex!r}",
            {"files": state.listing()},
        )
    scores: dict[int, float] = {}
    for v, s in sc:
        if s in scores or s not in entries:
            raise Violation("scores", f"unexpected score list {sc}")
        scores[s] = v
    if sc != sorted(sc, reverse=True):
        raise Violation("scores-order", f"scores are not sorted best first: {sc}")
    return entries, scores


def ref(entries: dict, scores: dict, op: tuple) -> tuple[dict, dict]:
    """Reference model of a completed operation."""
    e, s = dict(entries), dict(scores)
    name, n = op[0], op[1]
    if name in ("save", "asave", "msave"):
        e[n] = ("model" if name == "msave" else "full", op[2])
        s.pop(n, None)
    elif name == "score":
        if n in e:
            s[n] = op[2]
    elif name == "delete":
        e.pop(n, None)
        s.pop(n, None)
    elif name == "keepmodel":
        if n in e:
            e[n] = ("model", e[n][1])
    return e, s


def allowed(entries: dict, scores: dict, op: tuple) -> list[tuple[dict, dict]]:
    """What may be observed after a crash in the middle of `op`."""
    e1, s1 = ref(entries, scores, op)
    name, n = op[0], op[1]
    out = [(entries, scores), (e1, s1)]
    e0 = {k: v for k, v in entries.items() if k != n}
    s0 = {k: v for k, v in scores.items() if k != n}
    if name in ("save", "asave", "msave", "delete"):
        if n in entries:
            # The entry that is being replaced or deleted may be gone already.
            out.append((e0, s0))
            out.append((entries, s0))
            out.append((e1, s0))
    return out


def run_op(state: State, op: tuple, hook=None) -> None:
    fs = make_memfs(state, hook)
    m = make_manager(fs, fake_gangs())
    name, n = op[0], op[1]
    if name in ("save", "asave"):
        c = content(n, op[2])
        m.save_checkpoint(
            n, *[Box(c[k]) for k in KINDS], blocking=name == "save"
        )
        if name == "asave":
            m.maybe_complete_save_operation(blocking=True)
            if m.is_saving:
                raise Violation("is-saving", "still saving after a blocking completion")
    elif name == "msave":
        m.save_model_only(n, Box(content(n, op[2])["model"]), blocking=True)
    elif name == "score":
        m.save_score(n, op[2])
    elif name == "delete":
        m.delete_checkpoint(n)
    elif name == "keepmodel":
        m.delete_checkpoint(n, keep_model=True)


def ops_for(entries: dict, steps: list[int]) -> list[tuple]:
    out: list[tuple] = []
    for n in steps:
        ver = 1 - entries[n][1] if n in entries else 0
        out.append(("save", n, ver))
        out.append(("asave", n, ver))
        out.append(("msave", n, ver))
        if n in entries:
            out.append(("score", n, 0.25 + n))
            out.append(("score", n, -1.5e-07))
        out.append(("delete", n))
        out.append(("keepmodel", n))
    return out


def check(rep: Report) -> None:
    steps = [1, 12] if not rep.thorough else [1, 2, 12]
    max_states = 10**6 if not rep.thorough else 3000
    depth_after_crash = 1 if not rep.thorough else 2
    memo: dict = {}
    init = State()
    seen = {init.key(): 0}
    frontier: deque[tuple[State, list, int]] = deque([(init, [], 0)])
    expanded = 0
    capped = False
    while frontier:
        st, hist, crashes = frontier.popleft()
        entries, scores = observe(st, steps, memo)
        expanded += 1
        for op in ops_for(entries, steps):
            # complete execution
            s2 = st.copy()
            log: list[str] = []
            run_op(s2, op, lambda k, p: log.append(f"{k} {p}"))
            rep.count("transitions")
            rep.case((hist, op))
            h2 = hist + [list(op)]
            try:
                got = observe(s2, steps, memo)
            except Violation as v:
                rep.violate(f"{v.key}", f"after {h2}: {v.msg}", v.detail)
                continue
            want = ref(entries, scores, op)
            if got != want:
                rep.violate(
                    f"completed:{op[0]}",
                    f"after completed history {h2} a restart sees {got}, expected {want}",
                    {"history": h2},
                )
            k2 = s2.key()
            if k2 not in seen and crashes == 0:
                seen[k2] = 0
                frontier.append((s2, h2, 0))
            # crash / fault before every effect
            if crashes >= depth_after_crash:
                continue
            if expanded > max_states:
                capped = True
                continue
            ok = allowed(entries, scores, op)
            for i in range(len(log)):
                kind = log[i].split(" ")[0]
                if kind in ("stat", "list", "read"):
                    continue
                for fault in ("crash", "eio"):
                    s3 = st.copy()
                    cnt = [0]

                    def hook(k: str, p: str) -> None:
                        cnt[0] += 1
                        if cnt[0] == i + 1:
                            if fault == "crash":
                                s3.frozen = True
                                raise Crash()
                            raise OSError(28, "No space left on device", p)

                    try:
                        run_op(s3, op, hook)
                    except Crash:
                        pass
                    except Exception:
                        if fault == "crash":
                            raise
                    else:
                        if fault == "crash":
                            # swallowed BaseException: the process would be gone
                            pass
                    s3.frozen = False
                    rep.count("transitions")
                    rep.case((hist, op, i, fault))
                    h3 = hist + [[*op, f"{fault} at effect {i}: {log[i]}"]]
                    try:
                        got = observe(s3, steps, memo)
                    except Violation as v:
                        rep.violate(f"{v.key}", f"after {h3}: {v.msg}", v.detail)
                        continue
                    if got not in ok:
                        rep.violate(
                            f"{fault}:{op[0]}",
                            f"after {h3} a restart sees {got}; allowed: {ok}",
                            {"history": h3, "files": s3.listing()},
                        )
                    k3 = s3.key()
                    if k3 not in seen:
                        seen[k3] = 1
                        frontier.append((s3, h3, crashes + 1))
                        if len(seen) % 97 == 0:
                            rep.sample(h3)
        if rep.violations:
            break
    rep.counters["states"] = len(seen)
    rep.cov["distinct_observations"] = len({repr(v) for v in memo.values()})
    rep.cov["expanded_states"] = expanded
    rep.cov["exhaustive"] = not capped
    rep.assumptions += [
        "process-crash model: effects before the crash persist in order (no fsync reordering)",
        "rename of a directory is atomic; a tree is removed file by file",
    ]
