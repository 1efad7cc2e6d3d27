"""M01: metric transactions are atomic, and the metrics of many processes equal
those of one process that saw all the data."""

from __future__ import annotations

import itertools
from typing import Any

from mc import boot

boot.init()

import torch

from mc.gloo import run_gloo
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.simgang import run_ranks

LEVEL = "model_checking"

CPU = torch.device("cpu")


# -- transactions --------------------------------------------------------------
def new_bag() -> Any:
    from fairseq2.metrics import Max, Mean, MetricBag, Min, Sum

    b = MetricBag(CPU)
    b.add("mean", Mean())
    b.add("sum", Sum())
    b.add("max", Max())
    b.add("min", Min())
    return b


UPD = {"u1": (1, 2.0, 1.0), "u2": (-4.5, 0.25, 3), "u3": (torch.tensor(2.5), 5, 0.5)}


def apply(bag: Any, u: str) -> None:
    from fairseq2.metrics import Max, Mean, Min, Sum

    v, s, w = UPD[u]
    bag.get("mean", Mean).update(v, weight=w)
    bag.get("sum", Sum).update(s)
    bag.get("max", Max).update(v)
    bag.get("min", Min).update(v)


def values(bag: Any) -> dict[str, float]:
    return {k: float(m.compute()) for k, m in bag.metrics.items()}


def oracle(us: tuple) -> dict[str, float]:
    vs = [(float(UPD[u][0]), float(UPD[u][1]), float(UPD[u][2])) for u in us]
    tw = sum(w for _, _, w in vs)
    return {
        "mean": sum(v * w for v, _, w in vs) / tw if vs else 0.0,
        "sum": sum(s for _, s, _ in vs),
        "max": max((v for v, _, _ in vs), default=float("-inf")),
        "min": min((v for v, _, _ in vs), default=float("inf")),
    }


OPS = ("u1", "u2", "u3", "begin", "commit", "rollback", "reset", "save", "load")


def transactions(rep: Report, first: str, depth: int) -> None:
    from fairseq2.error import InvalidOperationError

    def run(seq: tuple) -> None:
        bag = new_bag()
        cur: tuple = ()
        orig: tuple | None = None
        saved: Any = None
        saved_model: tuple = ()
        for i, op in enumerate(seq):
            if op in UPD:
                apply(bag, op)
                cur += (op,)
            elif op == "begin":
                try:
                    bag.begin_updates()
                    if orig is not None:
                        raise Violation("nested-begin", f"{seq[:i + 1]}: a second begin_updates() is accepted")
                    orig = cur
                except InvalidOperationError:
                    if orig is None:
                        raise Violation("begin", f"{seq[:i + 1]}: begin_updates() fails") from None
            elif op in ("commit", "rollback"):
                try:
                    (bag.commit_updates if op == "commit" else bag.rollback_updates)()
                    if orig is None:
                        raise Violation("no-transaction", f"{seq[:i + 1]}: {op} without begin_updates() is accepted")
                    if op == "rollback":
                        cur = orig
                    orig = None
                except InvalidOperationError:
                    if orig is not None:
                        raise Violation("end", f"{seq[:i + 1]}: {op} fails") from None
            elif op == "reset":
                bag.reset_metrics()
                cur = ()
            elif op == "save":
                import copy

                saved, saved_model = copy.deepcopy(bag.state_dict()), cur
            elif op == "load" and saved is not None:
                if i % 2:
                    # a restarted process
                    bag, orig = new_bag(), None
                bag.load_state_dict(saved)
                cur = saved_model
            got, want = values(bag), oracle(cur)
            for k in want:
                if abs(got[k] - want[k]) > 1e-9 and got[k] != want[k]:
                    raise Violation(f"value-{k}", f"after {seq[:i + 1]} {k} is {got[k]}, expected {want[k]}")
        rep.case(seq)
        rep.count("transitions", len(seq))

    for rest in itertools.product(OPS, repeat=depth - 1):
        run((first,) + rest)
    rep.sample([first, "..."])


def bad_states(rep: Report) -> None:
    """Incomplete, foreign or malformed states are rejected."""
    from fairseq2.error import StateDictError

    good = new_bag()
    apply(good, "u1")
    sd = good.state_dict()
    bads = [{k: v for k, v in sd.items() if k != n} for n in sd]
    bads += [{**sd, "x": {}}, {**sd, "sum": 1}, {**sd, "mean": {"foo": 1}}, {}]
    for b in bads:
        rep.case(("bad", sorted(b)))
        try:
            new_bag().load_state_dict(b)
        except StateDictError:
            continue
        raise Violation("bad-state", f"a state with keys {sorted(b)} is accepted")
    try:
        good.add("sum", good.metrics["sum"])
        raise Violation("duplicate", "a second metric with the same name is accepted")
    except ValueError:
        pass


# -- several processes -----------------------------------------------------------
BIG = 2**24


def make_full() -> Any:
    from torcheval.metrics import Throughput

    from fairseq2.metrics import Max, Mean, MetricBag, Min, Sum
    from fairseq2.metrics.text.bleu import BleuMetric
    from fairseq2.metrics.text.chrf import ChrfMetric
    from fairseq2.metrics.text.wer import WerMetric

    b = MetricBag(CPU)
    for n, m in (
        ("mean", Mean()), ("sum", Sum()), ("max", Max()), ("min", Min()), ("wer", WerMetric()),
        ("bleu", BleuMetric()), ("chrf", ChrfMetric()), ("throughput", Throughput()),
    ):
        b.add(n, m)
    return b


SENT = [
    ("the cat sat on the mat today", "the cat sat on a mat today"),
    ("hello brave new world out there", "hello brave old world out there now"),
    ("a b c d e", "a b c d e"),
]


def stream(bag: Any, us: tuple) -> None:
    from torcheval.metrics import Throughput

    from fairseq2.metrics import Max, Mean, Min, Sum
    from fairseq2.metrics.text.bleu import BleuMetric
    from fairseq2.metrics.text.chrf import ChrfMetric
    from fairseq2.metrics.text.wer import WerMetric
    from fairseq2.nn import BatchLayout

    for u in us:
        bag.get("mean", Mean).update((0.5, -2.0, 8.0)[u], weight=(1, 3, 0.5)[u])
        bag.get("sum", Sum).update((BIG, 3, -7)[u])
        bag.get("sum", Sum).update(1)
        bag.get("max", Max).update((1.0, 5.0, -3.0)[u])
        bag.get("min", Min).update((1.0, 5.0, -3.0)[u])
        ref, hyp = SENT[u]
        bag.get("bleu", BleuMetric).update([ref], [hyp])
        bag.get("chrf", ChrfMetric).update([ref], [hyp])
        bag.get("throughput", Throughput).update(10 * (u + 1), 2.0)
        seqs = torch.tensor([[1, 2, 3, 0], [4, 5, 0, 0]])
        hyps = torch.tensor([[1, 2, 3, 4, 9], [4, 6, 9, 9, 9]])
        if u == 2:
            # without any errors
            bag.get("wer", WerMetric).update(
                [ref], seqs[:1], BatchLayout((1, 4), [3]), [ref], hyps[:1], BatchLayout((1, 5), [3])
            )
            continue
        bag.get("wer", WerMetric).update(
            [ref, ref], seqs, BatchLayout((2, 4), [3, 2]), [hyp, ref], hyps, BatchLayout((2, 5), [3 + u % 2, 2])
        )


def flat(values: dict) -> dict:
    out = {}
    for k, v in values.items():
        if isinstance(v, tuple):
            out[k] = [float(x) for x in v]
        else:
            out[k] = [float(v)]
    return out


def edit(a: list, b: list) -> int:
    d = list(range(len(b) + 1))
    for i, x in enumerate(a):
        p, d[0] = d[0], i + 1
        for j, y in enumerate(b):
            p, d[j + 1] = d[j + 1], min(d[j + 1] + 1, d[j] + 1, p + (x != y))
    return d[-1]


def exact(us: tuple) -> dict:
    """From first principles, over all examples at once."""
    from sacrebleu.metrics import BLEU, CHRF

    out: dict = {}
    w = [(1, 3, 0.5)[u] for u in us]
    v = [(0.5, -2.0, 8.0)[u] for u in us]
    out["mean"] = [sum(a * b for a, b in zip(v, w)) / sum(w) if us else 0.0]
    out["sum"] = [float(sum((BIG, 3, -7)[u] + 1 for u in us))]
    out["max"] = [max(((1.0, 5.0, -3.0)[u] for u in us), default=float("-inf"))]
    out["min"] = [min(((1.0, 5.0, -3.0)[u] for u in us), default=float("inf"))]
    refs = [SENT[u][0] for u in us]
    hyps = [SENT[u][1] for u in us]
    if us:
        out["bleu"] = [BLEU().corpus_score(hyps, [refs]).score]
        out["chrf"] = [CHRF(word_order=2).corpus_score(hyps, [refs]).score]
    ue = ul = we = wl = 0
    for u in us:
        ref, hyp = SENT[u]
        if u == 2:
            wl += len(ref.split())
            ul += 3
            continue
        for r, h in ((ref, hyp), (ref, ref)):
            we += edit(h.split(), r.split())
            wl += len(r.split())
        h0 = [1, 2, 3, 4][: 3 + u % 2]
        ue += edit(h0, [1, 2, 3]) + edit([4, 6], [4, 5])
        ul += 5
    out["wer"] = [100.0 * ue / ul, 100.0 * we / wl] if us else [-1.0, -1.0]
    return out


def compare(got: dict, us: tuple, where: str) -> None:
    want = exact(us)
    for k in want:
        for a, b in zip(got[k], want[k]):
            if a != b and abs(a - b) > 1e-4 * max(1.0, abs(b)) or (k == "sum" and a != b):
                raise Violation(f"dist-{k}", f"{where}: {k} is {got[k]} instead of {want[k]}")


STREAMS: tuple = ((), (2,), (0, 1), (2, 0, 1), (1,))


def distributed(rep: Report, w: int, tp: int, real: bool, nstreams: int) -> None:
    from fairseq2.gang import create_parallel_gangs
    from fairseq2.metrics.bag import sync_and_compute_metrics

    dp = w // tp
    combos = list(itertools.product(range(nstreams), repeat=dp))

    def main(rank: int, gangs: Any) -> list:
        out = []
        for c in combos:
            bag = make_full()
            stream(bag, STREAMS[c[gangs.dp.rank]])
            before = {k: flat({k: m.compute()})[k] for k, m in bag.metrics.items()}
            if gangs.tp.rank == 0:
                v = sync_and_compute_metrics(bag, gangs.dp)
            else:
                v = None
            after = {k: flat({k: m.compute()})[k] for k, m in bag.metrics.items()}
            out.append((None if v is None else flat(v), before == after))
        return out

    if real:
        outs = run_gloo(w, lambda r, root: main(r, create_parallel_gangs(root, tp_size=tp)))
    else:
        outs = run_ranks(w, main, tp_size=tp)
    for i, c in enumerate(combos):
        us = tuple(itertools.chain(*[STREAMS[x] for x in c]))
        where = f"{'real' if real else 'simulated'} processes, updates per process {[STREAMS[x] for x in c]}, tp {tp}"
        v, _ = outs[0][i]
        if v is None:
            raise Violation("no-values", f"{where}: the first process gets no values")
        compare(v, us, where)
        for r in range(w):
            if not outs[r][i][1]:
                raise Violation("sync-modifies", f"{where}: synchronising changed the metrics of process {r}")
        rep.case((w, tp, real, c))
        rep.count("traces_replayed" if real else "states", 1)


def check(rep: Report) -> None:
    depth = 6 if rep.thorough else 5
    jobs: list = [lambda r, o=o: transactions(r, o, depth) for o in OPS]
    jobs.append(bad_states)
    n = 5 if rep.thorough else 3
    jobs += [lambda r, w=w: distributed(r, w, 1, False, n) for w in (1, 2, 3)]
    jobs.append(lambda r: distributed(r, 4, 2, False, n))
    run_jobs(rep, jobs)
    for w, tp in ((1, 1), (2, 1), (3, 1), (4, 2)):
        run_jobs(rep, [lambda r: distributed(r, w, tp, True, n)])
    rep.count("states", rep.counters.get("evaluations", 0))
