"""N01: incremental decoding computes what a full forward pass computes."""

from __future__ import annotations

import itertools
from typing import Any, Callable

from checks.nn_common import M, V, allowed, lm_models, make_mha, make_pos, randomize, seq2seq_models
from mc.par import run_jobs
from mc.report import Report, Violation

import torch
from torch import Tensor

LEVEL = "model_checking"

TOL = 2e-4


def compositions(n: int) -> list[tuple[int, ...]]:
    out = []
    for bits in itertools.product((0, 1), repeat=n - 1):
        parts, cur = [], 1
        for b in bits:
            if b:
                parts.append(cur)
                cur = 1
            else:
                cur += 1
        out.append(tuple(parts + [cur]))
    return out


MAXB = 3


def reorders(n: int) -> list[tuple[int, ...] | None]:
    """Batch orders explored after a step with `n` rows (None: no reordering)."""
    out: list[tuple[int, ...] | None] = [None]
    if n == 1:
        out += [(0, 0), (0, 0, 0)]
    elif n == 2:
        out += [(1, 0), (0, 0), (1, 1), (1,), (0, 1, 1)]
    else:
        out += [(2, 0, 1), (1, 1, 2), (0, 2), (2,)]
    return out


def near(a: Tensor, b: Tensor) -> bool:
    return a.shape == b.shape and bool(torch.isfinite(a).all()) and bool(((a - b).abs() <= TOL * (1 + b.abs())).all())


class Subject:
    """One decodable module: `step` runs it with a state bag, `full` without."""

    def __init__(self, name: str, step: Callable, full: Callable, new: Callable) -> None:
        self.name, self._step, self._full, self.new = name, step, full, new
        self.memo: dict[Any, Tensor] = {}

    def full(self, hist: tuple) -> Tensor:
        out = self.memo.get(hist)
        if out is None:
            out = self.memo[hist] = self._full(hist)
        return out


def explore(rep: Report, sub: Subject, L: int, caps: tuple, order: bool, B: int, max_steps: int) -> None:
    """Runs every composition of L into steps (and every reordering between)."""
    from fairseq2.nn import IncrementalStateBag

    def run(comp: tuple[int, ...], orders: tuple, cap: int | None) -> list:
        """Executes; returns the number of rows after each step."""
        bag = IncrementalStateBag(max_steps, capacity_increment=cap)
        rows: list[tuple] = [(b,) for b in range(B)]  # (source, (t, slot)...)
        pos = 0
        sizes = []
        for i, c in enumerate(comp):
            rows = [h + tuple((pos + j, r) for j in range(c)) for r, h in enumerate(rows)]
            try:
                out = sub._step(rows, c, bag)
            except Exception as ex:
                raise Violation(f"{sub.name}:raised", f"{sub.name}: steps {comp} orders {orders} capacity increment {cap}: "
                                f"step {i} raised {ex!r}") from None
            rep.count("transitions")
            for r, h in enumerate(rows):
                ref = sub.full(h)[-c:]
                if not near(out[r], ref):
                    raise Violation(
                        f"{sub.name}:differs",
                        f"{sub.name}: steps {comp}, orders {orders}, capacity increment {cap}: output of step {i} row {r} differs from "
                        f"the full forward pass (max {(out[r] - ref).abs().max().item() if out[r].shape == ref.shape else 'shape'})")
            if bag.size_bytes() > bag.capacity_bytes():
                raise Violation(f"{sub.name}:size", f"{sub.name}: state size {bag.size_bytes()} exceeds the capacity "
                                f"{bag.capacity_bytes()} after steps {comp[: i + 1]} orders {orders}")
            pos += c
            sizes.append(len(rows))
            if i + 1 < len(comp):
                bag.increment_step_nr(c)
                if i < len(orders) and orders[i] is not None:
                    bag.reorder(torch.tensor(orders[i]))
                    rows = [rows[k] for k in orders[i]]
        rep.count("executions")
        rep.case((sub.name, comp, orders, cap))
        return sizes

    for comp in compositions(L):
        for cap in caps:
            if not order:
                run(comp, (), cap)
                continue

            def rec(orders: tuple, n: int) -> None:
                if len(orders) == len(comp) - 1:
                    if any(o is not None for o in orders) or len(comp) == 1:
                        run(comp, orders, cap)
                        rep.count("states")
                    return
                for o in reorders(n):
                    rec(orders + (o,), n if o is None else len(o))

            rec((), B)


# ------------------------------------------------------------------ modules


def mha_subject(name: str, m: Any, cross: bool = False) -> Subject:
    from fairseq2.models.transformer import AttentionBiasCache
    from fairseq2.nn import BatchLayout

    g = torch.Generator().manual_seed(7)
    X = torch.randn((16, MAXB, M), generator=g)
    SRC = [torch.randn((n, M), generator=g) for n in (3, 1, 2)]

    def src(ids: list[int]) -> tuple[Tensor, Any]:
        lens = [len(SRC[i]) for i in ids]
        out = torch.full((len(ids), max(len(s) for s in SRC), M), 9.0)
        for r, i in enumerate(ids):
            out[r, : lens[r]] = SRC[i]
        return out, BatchLayout.of(out, lens)

    def call(rows: list[tuple], c: int, bag: Any) -> Tensor:
        x = torch.stack([torch.stack([X[t, s] for t, s in h[1:][-c:]]) for h in rows])
        lay = BatchLayout.of(x)
        with torch.no_grad():
            if cross:
                k, klay = src([h[0] for h in rows])
                return m(x, lay, k, klay, k, AttentionBiasCache(), state_bag=bag)
            return m(x, lay, x, lay, x, AttentionBiasCache(), state_bag=bag)

    return Subject(name, call, lambda h: call([h], len(h) - 1, None)[0], None)


def lm_subject(name: str, m: Any) -> Subject:
    from fairseq2.nn import BatchLayout

    g = torch.Generator().manual_seed(7)
    X = torch.randint(2, V - 1, (16, MAXB), generator=g)

    def call(rows: list[tuple], c: int, bag: Any) -> Tensor:
        x = torch.stack([torch.stack([X[t, s] for t, s in h[1:][-c:]]) for h in rows])
        with torch.no_grad():
            return m(x, BatchLayout.of(x), state_bag=bag)

    return Subject(name, call, lambda h: call([h], len(h) - 1, None)[0], None)


def s2s_subject(name: str, m: Any, speech: bool) -> Subject:
    from fairseq2.nn import BatchLayout

    g = torch.Generator().manual_seed(7)
    X = torch.randint(2, V - 1, (16, MAXB), generator=g)
    if speech:
        SRC = [torch.randn((n, 8), generator=g) for n in (9, 13, 5)]
    else:
        SRC = [torch.randint(2, V - 1, (n,), generator=g) for n in (3, 1, 2)]

    def src(ids: list[int]) -> tuple[Tensor, Any]:
        lens = [len(SRC[i]) for i in ids]
        # The subsampling convolutions see padding frames; keep their number fixed.
        width = 13 if speech else max(lens)
        out = SRC[0].new_full((len(ids), width) + tuple(SRC[0].shape[1:]), 3)
        for r, i in enumerate(ids):
            out[r, : lens[r]] = SRC[i]
        return out, BatchLayout.of(out, lens)

    def call(rows: list[tuple], c: int, bag: Any) -> Tensor:
        x = torch.stack([torch.stack([X[t, s] for t, s in h[1:][-c:]]) for h in rows])
        # As the generators do, always pass the original source batch; its
        # encoder output is part of the state.
        if bag is not None and bag.step_nr > 0:
            s, slay = src([0] * len(rows))
        else:
            s, slay = src([h[0] for h in rows])
        with torch.no_grad():
            return m(s, slay, x, BatchLayout.of(x), state_bag=bag)

    return Subject(name, call, lambda h: call([h], len(h) - 1, None)[0], None)


def mha_configs(thorough: bool) -> list[tuple[str, Callable[[], Any], bool]]:
    out: list[tuple[str, Callable[[], Any], bool]] = []
    L = 8 if thorough else 6

    def add(name: str, cross: bool = False, **kw: Any) -> None:
        out.append((f"mha[{name}]", lambda: make_mha(**dict(dict(max_len=L), **kw)), cross))

    for impl in ("torch", "torch-scaled", "naive", "naive-scaled", "softcap", "shaw"):
        for bias in ("causal", "alibi", ("window", 1), ("window", 2), ("window", 3), ("window", 5), ("window", L + 1), ("chunk", 1), ("chunk", 2), ("chunk", 3)):
            pos = "none" if impl == "shaw" else "rotary"
            add(f"{impl},{bias}", impl=impl, bias=bias, pos=pos)
            if isinstance(bias, tuple) and bias[0] == "window":
                add(f"{impl},{bias},local-state", impl=impl, bias=bias, pos=pos, state_window=bias[1])
    for pos in ("none", "reference-rotary", "dual-rotary", "yarn", "sinusoidal", "learned"):
        for bias in ("causal", ("window", 3)):
            add(f"torch,{bias},{pos}", bias=bias, pos=pos, kv_heads=2, **({} if bias == "causal" else {"state_window": 3}))
    for bias in ("causal", ("window", 2)):
        add(f"olmo,{bias}", bias=bias, olmo=True, **({} if bias == "causal" else {"state_window": 2}))
    for impl in ("torch", "naive", "softcap"):
        add(f"{impl},cross", cross=True, impl=impl, bias="identity", pos="none")
    return out


def mha_job(cfgs: list) -> Callable[[Report], None]:
    def job(rep: Report) -> None:
        L = 8 if rep.thorough else 6
        for name, make, cross in cfgs:
            try:
                sub = mha_subject(name, make(), cross)
                explore(rep, sub, L, (None, 1, 2, 3, 16), False, 2, L + 1)
                explore(rep, sub, 5 if rep.thorough else 4, (2,), True, 2, L + 1)
            except Violation as v:
                rep.violate(v.key, v.msg, v.detail)
            rep.count("configurations")
    return job


def model_job(name: str) -> Callable[[Report], None]:
    def job(rep: Report) -> None:
        if name in lm_models():
            sub = lm_subject(name, randomize(lm_models()[name]()))
        else:
            make, speech = seq2seq_models()[name]
            sub = s2s_subject(name, randomize(make()), speech)
        t = rep.thorough
        try:
            explore(rep, sub, 8 if t else 6, (None, 1, 3, 16) if t else (None, 3), False, 2, 9)
            explore(rep, sub, 5 if t else 4, (2,) if not t else (1, None), True, 2, 9)
        except Violation as v:
            rep.violate(v.key, v.msg, v.detail)
        rep.count("configurations")
        rep.sample(name, 4)
    return job


# ---------------------------------------------------------------- positions


def pos_job(rep: Report) -> None:
    """Position encoders: steps at any offset, and beyond the maximum length."""
    from fairseq2.nn import BatchLayout, IncrementalStateBag

    L = 5
    x = torch.randn((2, L + 2, 2, 8), generator=torch.Generator().manual_seed(3))
    for kind in ("rotary", "reference-rotary", "dual-rotary", "yarn", "sinusoidal", "learned"):
        e = make_pos(kind, L).eval()
        if kind == "learned":
            randomize(e)
        inp = x
        full = e(inp[:, :L], BatchLayout.of(inp[:, :L]))
        for a in range(L + 1):
            for b in range(1, L + 3 - a):
                bag = IncrementalStateBag(L + 5)
                if a:
                    bag.increment_step_nr(a)
                z = inp[:, a : a + b]
                rep.count("executions")
                rep.count("transitions")
                rep.case((kind, a, b))
                try:
                    out = e(z, BatchLayout.of(z), state_bag=bag)
                except ValueError:
                    if a + b <= L:
                        rep.violate(f"{kind}:rejected", f"{kind} position encoder rejects positions {a}..{a + b - 1} of {L}")
                    continue
                if a + b > L:
                    rep.violate(f"{kind}:beyond", f"{kind} position encoder accepts positions {a}..{a + b - 1} beyond its maximum length {L}")
                elif not near(out, full[:, a : a + b]):
                    rep.violate(f"{kind}:offset", f"{kind} position encoder: positions {a}..{a + b - 1} differ from those of the full sequence")


def check(rep: Report) -> None:
    torch.set_num_threads(1)
    cfgs = mha_configs(rep.thorough)
    jobs = [model_job(n) for n in (*seq2seq_models(), *lm_models())]
    jobs += [mha_job(cfgs[i::10]) for i in range(10)]
    jobs.append(pos_job)
    run_jobs(rep, jobs)
    rep.part("bounds", rows="<= 3", sequence="6 steps in every composition; 4 steps in every composition with every listed reordering",
             state_capacity_increments="None, 1, 2, 3, 16")
    rep.assumptions.append("float32 results within 2e-4 are equal; tiny dimensions; TorchSDPA dispatches to the CPU kernels")
