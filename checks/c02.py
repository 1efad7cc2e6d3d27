"""C02: the multi-process checkpoint protocol under every bounded interleaving.

The real StandardCheckpointManager runs once per simulated rank; ranks and
background writers are logical threads of a cooperative scheduler that owns
every file-system effect, collective call and future poll.  All schedules up to
a preemption bound are executed.  Monitors run at every file-system effect.
"""

from __future__ import annotations

import itertools
from typing import Any

from checks.ckpt_common import CKPT, Box, content, make_manager, same, subtree
from mc.explore import Explorer
from mc.par import run_jobs
from mc.memfs import DIR, State, make_memfs
from mc.report import Report, Violation
from mc.sched import Deadlock, Sched, make_thread_pool
from mc.simgang import CollectiveMismatch, make_world

LEVEL = "model_checking"

KINDS = ("trainer", "model", "optimizer", "data_reader")


def build_gangs(root, tp: int, mode: Any):
    from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

    g = create_parallel_gangs(root, tp_size=tp)
    if mode == "ddp":
        return g
    return create_fsdp_gangs(g, mode)


def who(gangs, kind: str) -> str:
    if kind == "trainer":
        return f"rank{gangs.root.rank}"
    if kind == "data_reader":
        return f"dp{gangs.dp.rank}"
    return f"pp{gangs.pp.rank}.tp{gangs.tp.rank}.sdp{gangs.sdp.rank}"


def expected(gangs, step: int) -> dict:
    return {k: content(step, 0, who(gangs, k))[k] for k in KINDS}


VERIFIED: set = set()

POINTS = {"mkdir", "create", "write2", "move", "rmtree", "rmdir", "unlink", "list"}


class World:
    def __init__(self, ctl, size: int, tp: int, mode: Any, scenario: str, fault=None, policy: str = "stay"):
        self.size, self.tp, self.mode, self.scenario = size, tp, mode, scenario
        self.sched = Sched(ctl, policy=policy)
        self.state = State()
        self.frozen_at: dict[int, tuple] = {}
        self.deleting: set[int] = set()
        self.fault = fault
        self.nfault = 0
        self.fs = make_memfs(self.state, self.hook)
        self.roots = make_world(self.sched, size)
        self.log: list = []
        self.gangs: dict[int, Any] = {}
        self.polls: dict[int, list] = {r: [] for r in range(size)}
        self.stales: dict[int, list] = {}

    def hook(self, kind: str, path: str) -> None:
        if kind in POINTS:
            self.monitor()
            self.sched.point(f"{kind}")
        if self.fault is not None and kind in ("create", "write"):
            self.nfault += 1
            if self.nfault == self.fault:
                raise OSError(28, "No space left on device", path)

    def visible(self) -> list[int]:
        out = []
        for p in self.state.children(str(CKPT)):
            n = p.rsplit("/", 1)[1]
            if n.startswith("step_") and n[5:].isdigit():
                out.append(int(n[5:]))
        return out

    def monitor(self) -> None:
        vis = self.visible()
        for s in vis:
            if s in self.deleting:
                continue
            sub = subtree(self.state, f"{CKPT}/step_{s}")
            if s not in self.frozen_at:
                self.frozen_at[s] = sub
                self.verify_complete(s)
            elif self.frozen_at[s] != sub:
                raise Violation(
                    "changed-after-commit",
                    f"checkpoint {s} changed after it became visible",
                    self.state.listing(),
                )
        for s in list(self.frozen_at):
            if s not in vis:
                if s not in self.deleting:
                    raise Violation("vanished", f"checkpoint {s} vanished", None)
                self.frozen_at.pop(s)

    def verify_complete(self, s: int) -> None:
        """Every rank must be able to load its own part right now."""
        key = (self.size, self.tp, self.mode, self.scenario, s, subtree(self.state, f"{CKPT}/step_{s}"))
        if key in VERIFIED:
            return
        self._verify_complete(s)
        VERIFIED.add(key)

    def _verify_complete(self, s: int) -> None:
        st = self.state.copy()
        for r, g in self.gangs.items():
            m = make_manager(make_memfs(st), g)
            kinds = KINDS if self.scenario != "model_only" else ("model",)
            for k in kinds:
                b = Box()
                try:
                    getattr(m, f"load_{k}_state")(s, b)
                except Exception as ex:
                    raise Violation(
                        "visible-incomplete",
                        f"checkpoint {s} is visible but rank {r} cannot load its {k} state: {ex!r}",
                        st.listing(),
                    )
                want = expected(g, s)[k]
                if not same(b.state, want):
                    raise Violation(
                        "wrong-content",
                        f"rank {r} reads {b.state} as the {k} state of step {s}, expected {want}",
                        None,
                    )

    def rank(self, r: int) -> None:
        gangs = build_gangs(self.roots[r], self.tp, self.mode)
        self.gangs[r] = gangs
        pool = make_thread_pool(self.sched, f"r{r}")
        m = make_manager(self.fs, gangs, pool)
        gangs.root.barrier()
        saved: list[int] = []
        ready: list[int] = []

        def on_ready(step_nr: int, blocking: bool) -> None:
            ready.append(step_nr)

        def on_saved(step_nr: int, blocking: bool) -> None:
            if step_nr not in self.visible():
                raise Violation(
                    "saved-callback",
                    f"rank {r} is told that checkpoint {step_nr} is saved but it is not visible",
                    None,
                )
            saved.append(step_nr)

        live = expected(gangs, 1)
        boxes = [Box(live[k]) for k in KINDS]
        if self.scenario == "model_only":
            m.save_model_only(1, boxes[1], ready_callback=on_ready, saved_callback=on_saved)
        else:
            m.save_checkpoint(1, *boxes, ready_callback=on_ready, saved_callback=on_saved)
        if ready != [1]:
            raise Violation("ready-callback", f"rank {r}: ready callback calls: {ready}", None)
        # Training goes on and changes everything in place.
        live["model"]["w"].add_(1000.0)
        live["optimizer"]["o"].zero_()
        live["optimizer"]["n"] = 77
        live["trainer"]["ver"] = "dirty"
        live["data_reader"]["pos"] = "dirty"
        for _ in range(2):
            res = m.maybe_complete_save_operation()
            self.polls[r].append(res)
            if (res is True) != (saved == [1]) or m.is_saving == (saved == [1]):
                raise Violation(
                    "poll", f"rank {r}: poll={res} but saved callbacks: {saved}", None
                )
            if res is not False:
                break
        if m.is_saving:
            m.maybe_complete_save_operation(blocking=True)
        if saved != [1] or 1 not in self.visible():
            raise Violation(
                "completion", f"rank {r}: save of step 1 completed; callbacks {saved}", None
            )
        m.save_score(1, 0.5)
        if m.load_scores() != [(0.5, 1)]:
            raise Violation("score", f"rank {r} reads scores {m.load_scores()}", None)
        live = expected(gangs, 2)
        boxes = [Box(live[k]) for k in KINDS]
        if self.scenario == "model_only":
            m.save_model_only(2, boxes[1], saved_callback=on_saved, blocking=True)
        else:
            m.save_checkpoint(2, *boxes, saved_callback=on_saved, blocking=True)
        if saved != [1, 2]:
            raise Violation("saved-callback", f"rank {r}: saved callbacks {saved}", None)
        stale = m.get_stale_step_numbers(1, None, None)
        self.stales[r] = stale
        self.deleting.update(stale)
        for s in stale:
            m.delete_checkpoint(s)
        if m.get_step_numbers() != [2]:
            raise Violation(
                "after-delete", f"rank {r} sees {m.get_step_numbers()} after deleting {stale}", None
            )
        self.verify_complete(2)

    def run(self) -> Any:
        for r in range(self.size):
            self.sched.spawn(f"r{r}", lambda r=r: self.rank(r), data=r)
        self.sched.run()
        if len({tuple(v) for v in self.polls.values()}) != 1:
            raise Violation("poll-disagrees", f"ranks disagree on completion: {self.polls}", None)
        if any(v != [1] for v in self.stales.values()):
            raise Violation("stale-disagrees", f"stale lists {self.stales}", None)
        return tuple(self.polls[0])


def explore(rep: Report, name: str, size: int, tp: int, mode: Any, scenario: str, bound: int, policy: str = "stay", cap: int | None = None) -> None:
    name = f"{name}/{policy}"
    ex = Explorer(bound=bound, max_executions=cap)

    def body(ctl):
        w = World(ctl, size, tp, mode, scenario, policy=policy)
        try:
            out = w.run()
        except Deadlock as d:
            raise Violation("deadlock", f"{name}: {d}", {"choices": ctl.choices})
        except CollectiveMismatch as d:
            raise Violation("mismatch", f"{name}: {d}", {"choices": ctl.choices})
        except Violation as v:
            v.detail = {"scenario": name, "choices": ctl.choices, "detail": v.detail}
            v.msg = f"{name}: {v.msg}"
            raise
        rep.case((name, tuple(ctl.choices)))
        rep.count("transitions", w.sched.npoints)
        if ctl.cost == bound:
            rep.sample({"scenario": name, "schedule": ctl.choices[:60]}, 4)
        return out

    try:
        ex.run(body)
    finally:
        rep.part(
            name,
            preemption_bound=bound,
            schedules=ex.stats.executions,
            capped=ex.stats.capped,
            max_choice_points=ex.stats.max_points,
            outcomes=ex.stats.outcomes,
        )
        if ex.stats.capped:
            rep.cov["exhaustive"] = False


def faults(rep: Report, size: int, tp: int, mode: Any) -> None:
    """A rank fails while writing: its checkpoint must never become visible."""
    i = 0
    while True:
        i += 1
        w = World(None, size, tp, mode, "full", fault=i)
        try:
            w.run()
        except (Deadlock, CollectiveMismatch):
            pass
        except Violation:
            raise
        except Exception:
            pass
        if w.nfault < i:
            break
        rep.case(("fault", size, tp, str(mode), i))
        w.monitor()


POLICIES = ("stay", "rotate", "reverse", "bg-last")


def check(rep: Report) -> None:
    scen = [
        ("2xddp", 2, 1, "ddp", "full"),
        ("2xfsdp", 2, 1, None, "full"),
        ("2xtp", 2, 2, "ddp", "full"),
        ("2xfsdp-model-only", 2, 1, None, "model_only"),
        ("3xfsdp", 3, 1, None, "full"),
        ("4xhybrid", 4, 1, 2, "full"),
        ("4xtp2dp2", 4, 2, "ddp", "full"),
        ("4xtp2fsdp2", 4, 2, None, "full"),
    ]
    jobs: list = []
    for s in scen:
        size = s[1]
        for policy in POLICIES:
            if rep.thorough:
                bound = 2
            else:
                bound = 1
            if rep.thorough and size > 2 and policy != "stay":
                bound = 1
            jobs.append(lambda r, s=s, b=bound, p=policy: explore(r, *s, b, p))
    jobs.append(lambda r: faults(r, 2, 1, None))
    jobs.append(lambda r: faults(r, 2, 2, "ddp"))
    jobs.append(lambda r: faults(r, 4, 2, None))
    jobs.append(lambda r: faults(r, 4, 1, 2))
    jobs.reverse()
    run_jobs(rep, jobs)
    rep.counters["states"] = rep.counters.get("transitions", 0)
    rep.assumptions += [
        "collectives are modelled as synchronising calls (all members must arrive)",
        "scheduling points: file-system effects, collectives, future polls/waits",
    ]
