"""Cooperative scheduler for real code on real (hand-off) threads.

Exactly one logical thread runs at any time.  The running thread calls
`point()` at every operation another thread may observe (file-system op,
collective, future poll); the scheduler then decides, through `ctl.choose`,
which enabled thread runs next.  Switching away from a thread that could go on
costs one preemption (with `delay_bounded`, every departure from the default
policy costs one, also where the running thread blocks).  `block(pred)` models waiting: the thread is enabled only
while `pred()` holds; no enabled thread with unfinished threads is a deadlock.
"""

from __future__ import annotations

import threading
from concurrent.futures import Future
from typing import Any, Callable

from mc.explore import Ctl


class Deadlock(Exception):
    def __init__(self, waiting: list[str]):
        super().__init__("deadlock: " + "; ".join(waiting))
        self.waiting = waiting


class Kill(BaseException):
    """Unwinds a logical thread after the execution has ended (crash, failure)."""


class _T:
    __slots__ = ("name", "fn", "sem", "done", "pred", "why", "exc", "result", "thread", "idx", "data")

    def __init__(self, name: str, fn: Callable[[], Any], idx: int):
        self.name = name
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.pred: Callable[[], bool] | None = None
        self.why = ""
        self.exc: BaseException | None = None
        self.result: Any = None
        self.idx = idx
        self.data: Any = None


class Sched:
    def __init__(
        self,
        ctl: Ctl | None,
        max_points: int = 100000,
        policy: str = "stay",
        delay_bounded: bool = True,
    ):
        self.ctl = ctl
        self.policy = policy  # which schedule the deviations are counted from
        self.delay_bounded = delay_bounded
        self.threads: list[_T] = []
        self.cur: _T | None = None
        self.main = threading.Semaphore(0)
        self.dead = False
        self.failure: BaseException | None = None
        self.npoints = 0
        self.max_points = max_points
        self.switches = 0
        self.trace: list[str] = []
        self.started = False
        self.on_point: Callable[[str], None] | None = None

    # -- thread side ----------------------------------------------------
    def spawn(self, name: str, fn: Callable[[], Any], data: Any = None) -> _T:
        t = _T(name, fn, len(self.threads))
        t.data = data
        self.threads.append(t)
        th = threading.Thread(target=self._main, args=(t,), daemon=True)
        t.thread = th
        th.start()
        return t

    def _main(self, t: _T) -> None:
        t.sem.acquire()
        try:
            if not self.dead:
                t.result = t.fn()
        except Kill:
            pass
        except BaseException as ex:  # noqa: BLE001
            t.exc = ex
            if self.failure is None and not self.dead:
                self.failure = ex
        t.done = True
        if self.dead:
            self.main.release()
            return
        self._reschedule(t)

    def current(self) -> _T | None:
        return self.cur

    def point(self, label: str = "") -> None:
        """A scheduling point: any enabled thread may go next."""
        t = self.cur
        if t is None:
            return
        if threading.current_thread() is not t.thread:
            return
        if self.dead:
            raise Kill()
        if self.on_point is not None:
            self.on_point(label)
        self.npoints += 1
        t.why = label
        self._reschedule(t)
        if self.dead:
            raise Kill()

    def block(self, pred: Callable[[], bool], why: str) -> None:
        t = self.cur
        assert t is not None
        if self.dead:
            raise Kill()
        if pred():
            return
        t.pred = pred
        t.why = why
        self._reschedule(t)
        if self.dead:
            raise Kill()
        t.pred = None

    def _enabled(self) -> list[_T]:
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is not None and not t.pred():
                continue
            out.append(t)
        return out

    def _reschedule(self, t: _T) -> None:
        """Picks the next thread and hands over. Called by the running thread."""
        if self.failure is not None:
            self._finish()
            if not t.done:
                t.sem.acquire()
            return
        en = self._enabled()
        if not en:
            self._finish()
            if not t.done:
                t.sem.acquire()
            return
        runnable = t in en
        if self.policy == "rotate":
            # round robin: the next thread in spawn order goes first
            en.sort(key=lambda x: (x.idx - t.idx - 1) % len(self.threads))
        elif self.policy == "reverse":
            en.sort(key=lambda x: -x.idx)
            if runnable:
                en.remove(t)
                en.insert(0, t)
        elif self.policy == "bg-last":
            # background tasks starve until every rank waits
            en.sort(key=lambda x: (".bg" in x.name, x is not t, x.idx))
        elif runnable:
            en.remove(t)
            en.insert(0, t)
        if len(en) == 1 or self.ctl is None:
            nxt = en[0]
        else:
            costs = [0] + [1 if runnable or self.delay_bounded else 0] * (len(en) - 1)
            label = "sched:" + ",".join(x.name for x in en) + "@" + t.why
            try:
                nxt = en[self.ctl.choose(len(en), label, costs)]
            except BaseException as ex:  # divergence
                self.failure = ex
                self._finish()
                if not t.done:
                    t.sem.acquire()
                return
        if nxt is t:
            return
        self.switches += 1
        self.cur = nxt
        nxt.sem.release()
        if not t.done:
            t.sem.acquire()

    def _finish(self) -> None:
        self.main.release()

    # -- driver side ----------------------------------------------------
    def run(self) -> None:
        """Runs all spawned threads to completion; raises the first failure or
        Deadlock. Always leaves no logical thread running."""
        self.started = True
        if self.threads:
            en = self._enabled()
            first = en[0]
            if len(en) > 1 and self.ctl is not None:
                first = en[self.ctl.choose(len(en), "sched:start", 1)]
            self.cur = first
            first.sem.release()
            self.main.acquire()
        waiting = [f"{t.name} in {t.why}" for t in self.threads if not t.done]
        self.kill()
        if self.failure is not None:
            raise self.failure
        if waiting:
            raise Deadlock(waiting)

    def kill(self) -> None:
        self.dead = True
        for t in self.threads:
            if not t.done:
                self.cur = t
                t.sem.release()
                self.main.acquire()
        for t in self.threads:
            t.thread.join()
        self.cur = None


class CoopFuture(Future):
    """A Future whose wait is visible to the scheduler."""

    def __init__(self, sched: Sched, name: str):
        super().__init__()
        self._sched = sched
        self._name = name

    def done(self) -> bool:
        self._sched.point(f"poll {self._name}")
        return super().done()

    def _is_done(self) -> bool:
        return super().done()

    def result(self, timeout: float | None = None) -> Any:
        if self._sched.cur is not None and not self._sched.dead:
            self._sched.block(self._is_done, f"wait {self._name}")
        return super().result(0)


def make_thread_pool(sched: Sched, tag: str):
    from fairseq2.utils.threading import ThreadPool

    class SimThreadPool(ThreadPool):
        def __init__(self) -> None:
            self.n = 0

        def queue(self, callback, *args, **kwargs):
            self.n += 1
            fut = CoopFuture(sched, f"{tag}.task{self.n}")

            def run() -> None:
                try:
                    r = callback(*args, **kwargs)
                except Kill:
                    raise
                except BaseException as ex:  # noqa: BLE001
                    fut.set_exception(ex)
                else:
                    fut.set_result(r)

            parent = sched.cur
            sched.spawn(f"{tag}.bg{self.n}", run, data=parent.data if parent else None)
            sched.point(f"queue {tag}")
            return fut

    return SimThreadPool()


class InlineThreadPool:
    """Runs the task when the future is first waited on or polled `delay` times."""


def make_inline_pool(when: Callable[[], bool] | None = None):
    """Single-threaded pool: the queued task runs when `result()` is called or
    when `when()` answers True at a `done()` poll."""
    from fairseq2.utils.threading import ThreadPool

    class LazyFuture(Future):
        def __init__(self, fn):
            super().__init__()
            self.fn = fn
            self.ran = False

        def _run(self):
            if not self.ran:
                self.ran = True
                try:
                    self.set_result(self.fn())
                except Exception as ex:  # noqa: BLE001
                    self.set_exception(ex)

        def done(self):
            if not self.ran and (when is None or when()):
                self._run()
            return super().done()

        def result(self, timeout=None):
            self._run()
            return super().result(0)

    class Pool(ThreadPool):
        def queue(self, callback, *args, **kwargs):
            return LazyFuture(lambda: callback(*args, **kwargs))

    return Pool()
