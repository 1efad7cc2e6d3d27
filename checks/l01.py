"""L01: learning rate schedules follow their definition at every step."""

from __future__ import annotations

import copy
import itertools
import math
from fractions import Fraction
from typing import Any, Callable

from mc import boot

boot.init()

import torch
from torch.nn import Parameter

from mc.par import run_jobs
from mc.report import Report, Violation

LEVEL = "model_checking"

LRS = (0.5, 0.03)


def optimizer(groups: int, tensor: bool) -> Any:
    gs = []
    for i in range(groups):
        lr = torch.tensor(LRS[i], dtype=torch.float64) if tensor else LRS[i]
        gs.append({"params": [Parameter(torch.zeros(1))], "lr": lr})
    return torch.optim.AdamW(gs, lr=1.0)


def close(a: float, b: float) -> bool:
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-15


# -- definitions ------------------------------------------------------------
# Each returns, for a step and a base learning rate (and the group's start and
# final values), the interval the learning rate must be in.
def lin(s: float, b: float, t: int, w: int) -> float:
    return s + (b - s) * t / w


def ref_myle(t: int, b: float, s: float, f: float, *, w: int) -> tuple:
    v = lin(s, b, t, w) if t < w else b * math.sqrt(w / t)
    return v, v


def ref_noam(t: int, b: float, s: float, f: float, *, w: int) -> tuple:
    if w == 0:
        v = b if t == 0 else b / math.sqrt(t)
    else:
        v = b * min(t / w**1.5, 1 / math.sqrt(t) if t else math.inf)
    return v, v


def ref_poly(t: int, b: float, s: float, f: float, *, n: int, w: int, p: float) -> tuple:
    if t < w:
        v = lin(s, b, t, w)
    elif t >= n:
        v = f
    else:
        v = f + (b - f) * ((n - t) / (n - w)) ** p
    return v, v


def ref_tri(t: int, b: float, s: float, f: float, *, n: int, r: tuple) -> tuple:
    """s and f are scales here."""
    n0, n1 = (int(math.floor(Fraction(str(x)) * n)) for x in r[:2])
    exact = all((Fraction(str(x)) * n).denominator == 1 for x in r)

    def at(a: int, c: int) -> float:
        if t < a:
            return b * s + (b - b * s) * t / a
        if t < a + c:
            return b
        if t < n:
            return b * f ** ((t - a - c) / (n - a - c))
        return b * f

    if exact:
        vs = [at(n0, n1)]
    else:
        vs = [at(a, c) for a in (n0, n0 + 1) for c in (n1, n1 + 1) if a + c <= n]
        if t < n0 and s <= 1:
            vs.append(b)
    return min(vs), max(vs)


def ref_cos(t: int, b: float, s: float, f: float, *, L: int, w: int, m: str, lm: float) -> tuple:
    if t < w:
        v = lin(s, b, t, w)
        return v, v
    k = t - w
    mul = Fraction(m)
    off, ln, n = Fraction(0), Fraction(L), 0
    spans = []
    while True:
        spans.append((n, off, ln))
        if off > k + 1:
            break
        off, ln, n = off + ln, ln * mul, n + 1

    def v(n: int, x: float) -> float:
        x = min(max(x, 0.0), 1.0)
        mn, mx = f * lm**n, b * lm**n
        return mn + (mx - mn) * (1 + math.cos(math.pi * x)) / 2

    vals = []
    for n, off, ln in spans:
        if off.denominator == 1 and (off + ln).denominator == 1:
            if off <= k < off + ln:
                x = v(n, float((k - off) / ln))
                vals += [x, x]
        elif off - 1 < k < off + ln + 1 and (k >= off or off.denominator != 1) and (
            k < off + ln or (off + ln).denominator != 1
        ):
            # Cycles of a fractional length may begin a step early or late.
            vals += [v(n, float((k - off - 1) / (ln + 1))), v(n, float((k - off + 1) / max(ln - 1, 1)))]
    return min(vals), max(vals)


# -- exploration ------------------------------------------------------------
def run(
    rep: Report, name: str, cfg: dict, make: Callable, ref: Callable, steps: int,
    groups: int, tensor: bool, starts: Any, finals: Any, resume: bool,
) -> None:
    where = f"{name} {cfg} groups {groups} start {starts} final {finals}{' (tensor learning rates)' if tensor else ''}"
    rep.case((name, sorted(cfg.items(), key=str), groups, tensor, repr(starts), repr(finals)))

    def per(v: Any, i: int) -> float:
        return v[i] if isinstance(v, (list, tuple)) else v

    def verify(t: int, lrs: list, opt: Any, how: str) -> None:
        for i in range(groups):
            lo, hi = ref(t, LRS[i], per(starts, i), per(finals, i), **cfg)
            x = float(lrs[i])
            if not (lo <= x <= hi or close(x, lo) or close(x, hi)):
                raise Violation(f"{name}-value", f"{where}{how}: learning rate of group {i} at step {t} is {x}, expected {lo}" + (f" to {hi}" if hi != lo else ""))
            if float(opt.param_groups[i]["lr"]) != x:
                raise Violation(f"{name}-optimizer", f"{where}{how}: optimizer uses {opt.param_groups[i]['lr']} at step {t}, scheduler reports {x}")

    opt = optimizer(groups, tensor)
    sch = make(opt, starts, finals, **cfg)
    seq = []
    states = []
    for t in range(steps + 1):
        lrs = [float(x) for x in sch.get_last_lr()]
        verify(t, lrs, opt, "")
        seq.append(lrs)
        if resume:
            states.append((copy.deepcopy(sch.state_dict()), copy.deepcopy(opt.state_dict())))
        opt.step()
        sch.step()
        rep.count("transitions")
    if not resume:
        return
    # a process restarted at any step continues with the same learning rates
    for t, (sd, od) in enumerate(states):
        opt = optimizer(groups, tensor)
        sch = make(opt, starts, finals, **cfg)
        for order in (0, 1) if t % 2 else (1, 0):
            if order:
                sch.load_state_dict(copy.deepcopy(sd))
            else:
                opt.load_state_dict(copy.deepcopy(od))
        for u in range(t, min(t + 4, steps)):
            lrs = [float(x) for x in sch.get_last_lr()]
            if lrs != seq[u]:
                raise Violation(f"{name}-resume", f"{where}: resumed at step {t}, the learning rates at step {u} are {lrs} instead of {seq[u]}")
            verify(u, lrs, opt, f" resumed at step {t}")
            opt.step()
            sch.step()
            rep.count("transitions")


def families(th: bool) -> list:
    from fairseq2.optim.lr_schedulers import CosineAnnealingLR, MyleLR, NoamLR, PolynomialDecayLR, TriStageLR

    def myle(o: Any, s: Any, f: Any, w: int) -> Any:
        return MyleLR(o, w, start_lr=s)

    def noam(o: Any, s: Any, f: Any, w: int) -> Any:
        return NoamLR(o, w)

    def poly(o: Any, s: Any, f: Any, n: int, w: int, p: float) -> Any:
        return PolynomialDecayLR(o, n, w, power=p, start_lr=s, final_lr=f)

    def tri(o: Any, s: Any, f: Any, n: int, r: tuple) -> Any:
        return TriStageLR(o, n, r, start_lr_scale=s, final_lr_scale=f)

    def cos(o: Any, s: Any, f: Any, L: int, w: int, m: str, lm: float) -> Any:
        return CosineAnnealingLR(o, L, w, cycle_mul=float(m), lr_mul=lm, start_lr=s, final_lr=f)

    big = 40 if th else 20
    out: list = []
    for w in range(1, big):
        out.append(("myle", dict(w=w), myle, ref_myle, 3 * w + 5))
        out.append(("noam", dict(w=w), noam, ref_noam, 3 * w + 5))
    out.append(("noam", dict(w=0), noam, ref_noam, 10))
    for n in (1, 2, 3, 5, 8, 13, 30) + ((50, 100) if th else ()):
        for w in range(0, min(n, 8)):
            for p in (1.0, 2.0, 0.5):
                out.append(("poly", dict(n=n, w=w, p=p), poly, ref_poly, n + 4))
    ratios = [(a / 20, b / 20, round(1 - a / 20 - b / 20, 10)) for a in range(0, 21, 1 if th else 3) for b in range(0, 21 - a, 1 if th else 3)]
    ratios += [(0.29, 0.57, 0.14), (0.57, 0.14, 0.29), (0.1, 0.4, 0.5), (0.0, 0.0, 1.0), (0.58, 0.28, 0.14)]
    for n in (1, 4, 10, 20) + ((100, 200) if th else (100,)):
        for r in ratios:
            out.append(("tri", dict(n=n, r=tuple(r)), tri, ref_tri, n + 3))
    for L in (1, 2, 3, 5, 10, 20, 100):
        for w in (0, 1, 4):
            for m in ("1.0", "2.0", "3.0", "4.0", "5.0", "1.5", "1.2", "1.1", "1.15", "1.7"):
                for lm in (1.0, 0.5):
                    if L == 100 and (w or lm == 1.0):
                        continue
                    out.append(("cosine", dict(L=L, w=w, m=m, lm=lm), cos, ref_cos, 400 if L < 20 else 800))
    return out


def explore(rep: Report, part: list) -> None:
    for name, cfg, make, ref, steps in part:
        if name == "tri":
            sf = [(0.01, 0.01), ([0.5, 1.0], [0.2, 0.75]), ((0.1, 0.0), (1.0, 0.05))]
        else:
            sf = [(0.0, 0.0), ([0.01, 0.001], [0.02, 0.002]), ((0.7, 0.03), (0.8, 0.0))]
        for s, f in sf:
            for groups in (1, 2):
                if isinstance(s, (list, tuple)) and groups == 1:
                    continue
                for tensor in (False, True):
                    if tensor and (groups == 1 or isinstance(s, tuple)) and not rep.thorough:
                        continue
                    run(rep, name, cfg, make, ref, steps if steps < 100 or groups == 2 else 60, groups, tensor, s, f, steps < 60 or (groups == 2 and steps == 103))
        rep.count("states", steps)
    if part:
        rep.sample({"scheduler": part[0][0], "config": {k: str(v) for k, v in part[0][1].items()}, "steps": part[0][4]})


def factories(rep: Report) -> None:
    """Schedulers created from a recipe configuration equal those created by hand."""
    from fairseq2.optim.lr_schedulers import CosineAnnealingLR, MyleLR, NoamLR, PolynomialDecayLR, TriStageLR
    from fairseq2.recipe import config as C
    from fairseq2.recipe.internal import lr_schedulers as F
    from fairseq2.utils.validation import ValidationError

    def seq(opt: Any, sch: Any, n: int) -> list:
        out = []
        for _ in range(n):
            out.append([float(x) for x in sch.get_last_lr()])
            opt.step()
            sch.step()
        return out

    def compare(name: str, cfg: Any, a: Callable, b: Callable, groups: int, n: int) -> None:
        rep.case(("factory", name, repr(cfg), groups))
        res = cfg.validate() if hasattr(cfg, "validate") else None
        if res is not None and res.has_error():
            raise Violation("factory-validate", f"{cfg} is refused")
        o1, o2 = optimizer(groups, False), optimizer(groups, False)
        x, y = seq(o1, a(o1), n), seq(o2, b(o2), n)
        if x != y:
            t = next(i for i in range(n) if x[i] != y[i])
            raise Violation(f"factory-{name}", f"{cfg} with {groups} groups gives {x[t]} at step {t}, expected {y[t]}")

    def refused(name: str, fn: Callable) -> None:
        rep.case(("refused", name))
        try:
            fn()
        except ValidationError:
            return
        raise Violation(f"factory-accepts-{name}", f"{name} is accepted")

    N = 24
    for groups, n, w in itertools.product((1, 2), (5, 20), (0, 1, 3)):
        reg = C.RegimeSection(num_steps=n)
        none = C.RegimeSection(num_steps=None)
        for start in (0.0, [0.01, 0.002][:groups], 0.25):
            for final in (0.0, [0.001, 0.02][:groups]):
                c = C.PolynomialDecayLRConfig(num_warmup_steps=w, start_lr=start, final_lr=final, power=2.0)
                compare("poly", c, lambda o: F._PolynomialDecayLRFactory(o, reg).create(c), lambda o: PolynomialDecayLR(o, n, w, power=2.0, start_lr=start, final_lr=final), groups, N)
                for cl, mul, lm in ((None, 1.0, 1.0), (4, 2.0, 0.5), (7, 1.0, 0.9)):
                    c2 = C.CosineAnnealingLRConfig(cycle_len=cl, num_warmup_steps=w, cycle_mul=mul, lr_mul=lm, start_lr=start, final_lr=final, final_lr_scale=None)
                    compare("cosine", c2, lambda o: F._CosineAnnealingLRFactory(o, reg).create(c2), lambda o: CosineAnnealingLR(o, cl or n - w, w, cycle_mul=mul, lr_mul=lm, start_lr=start, final_lr=final), groups, N)
            for scale in (0.2, [0.1, 0.5][:groups]):
                sc = scale if isinstance(scale, list) else [scale] * groups
                c3 = C.CosineAnnealingLRConfig(num_warmup_steps=w, start_lr=start, final_lr_scale=scale)
                compare("cosine", c3, lambda o: F._CosineAnnealingLRFactory(o, reg).create(c3), lambda o: CosineAnnealingLR(o, n - w, w, start_lr=start, final_lr=[a * b for a, b in zip(LRS, sc)]), groups, N)
                c4 = C.TriStageLRConfig(stage_ratio=(0.2, 0.2, 0.6), start_lr_scale=scale, final_lr_scale=sc)
                compare("tri", c4, lambda o: F._TriStageLRFactory(o, reg).create(c4), lambda o: TriStageLR(o, n, (0.2, 0.2, 0.6), start_lr_scale=sc, final_lr_scale=sc), groups, N)
            if w:
                c5 = C.MyleLRConfig(num_warmup_steps=w, start_lr=start)
                compare("myle", c5, lambda o: F._MyleLRFactory(o).create(c5), lambda o: MyleLR(o, w, start_lr=start), groups, N)
            c6 = C.NoamLRConfig(num_warmup_steps=w)
            compare("noam", c6, lambda o: F._NoamLRFactory(o).create(c6), lambda o: NoamLR(o, w), groups, N)
        o = optimizer(groups, False)
        bad = [0.1] * (groups + 1)
        P, K, T, M = C.PolynomialDecayLRConfig, C.CosineAnnealingLRConfig, C.TriStageLRConfig, C.MyleLRConfig
        refused("poly without num_steps", lambda: F._PolynomialDecayLRFactory(o, none).create(P()))
        refused("tri without num_steps", lambda: F._TriStageLRFactory(o, none).create(T()))
        refused("cosine without num_steps", lambda: F._CosineAnnealingLRFactory(o, none).create(K()))
        refused("warmup of all steps", lambda: F._PolynomialDecayLRFactory(o, reg).create(P(num_warmup_steps=n)))
        for kw in ({"start_lr": bad}, {"final_lr": bad}):
            refused(f"poly {kw}", lambda: F._PolynomialDecayLRFactory(o, reg).create(P(**kw)))
        for kw in ({"start_lr": bad}, {"final_lr": bad, "final_lr_scale": None}, {"final_lr_scale": bad}):
            refused(f"cosine {kw}", lambda: F._CosineAnnealingLRFactory(o, reg).create(K(**kw)))
        for kw in ({"start_lr_scale": bad}, {"final_lr_scale": bad}):
            refused(f"tri {kw}", lambda: F._TriStageLRFactory(o, reg).create(T(**kw)))
        refused("myle", lambda: F._MyleLRFactory(o).create(M(num_warmup_steps=3, start_lr=bad)))


def check(rep: Report) -> None:
    fam = families(rep.thorough)
    n = 24
    run_jobs(rep, [lambda r, i=i: explore(r, fam[i::n]) for i in range(n)] + [factories])
