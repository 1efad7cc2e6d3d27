"""K01: loading a model checkpoint gives every process exactly its shard, and
nothing else is accepted silently."""

from __future__ import annotations

import io
import itertools
from pathlib import Path
from typing import Any, Callable, Iterator

from mc import boot

boot.init()

import torch
from torch import Tensor

from mc.memfs import State, make_memfs
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.simgang import run_ranks

LEVEL = "model_checking"

ROOT = Path("/ckpt")


# ------------------------------------------------------------------ the data


def full_state(variant: str) -> tuple[dict[str, Tensor], dict[str, int], dict[str, str]]:
    """Unsharded tensors, tensor parallel dimensions, aliases."""

    def t(*shape: int, at: int = 0) -> Tensor:
        n = 1
        for s in shape:
            n *= s
        return torch.arange(at, at + n, dtype=torch.float32).reshape(shape)

    full = {
        "emb.weight": t(12, 2, at=100),
        "q.weight": t(12, 3, at=200),
        "q.bias": t(12, at=300),
        "o.weight": t(3, 12, at=400),
        "o.bias": t(3, at=500),
        "norm.weight": t(5, at=600),
        "one.weight": t(1, 24, at=700),
    }
    dims = {"emb.weight": 0, "q.weight": 0, "q.bias": 0, "o.weight": 1, "one.weight": 1}
    alias: dict[str, str] = {}
    if variant == "tied":
        alias = {"final.weight": "norm.weight"}
    return full, dims, alias


def tp_part(t: Tensor, dim: int | None, n: int, r: int) -> Tensor:
    return t if dim is None else t.chunk(n, dim=dim)[r].clone()


def sdp_parts(t: Tensor, m: int, empty: str) -> list[Tensor | None]:
    """The first dimension in chunks; trailing processes may have nothing."""
    chunks: list[Tensor | None] = [c.clone() for c in t.chunk(m, dim=0)]
    while len(chunks) < m:
        if empty == "omit":
            chunks.append(None)
        elif empty == "flat":
            chunks.append(torch.empty(0))
        else:
            chunks.append(torch.empty((0, *t.shape[1:])))
    return chunks


def dump(obj: Any) -> bytes:
    b = io.BytesIO()
    torch.save(obj, b)
    return b.getvalue()


def shard_dicts(full: dict, dims: dict, alias: dict, tp: int, sdp: int, empty: str) -> list[list[dict[str, Tensor]]]:
    out: list[list[dict[str, Tensor]]] = []
    for i in range(tp):
        row: list[dict[str, Tensor]] = [{} for _ in range(sdp)]
        for k, v in full.items():
            for j, c in enumerate(sdp_parts(tp_part(v, dims.get(k), tp, i), sdp, empty)):
                if c is not None:
                    row[j][k] = c
        for a, k in alias.items():
            for d in row:
                if k in d:
                    d[a] = d[k]
        out.append(row)
    return out


class Box:
    """An in-memory file system with the real loaders on top of it."""

    def __init__(self) -> None:
        from fairseq2.gang import GangContext
        from fairseq2.io import _HuggingFaceSafetensorsLoader, _TorchTensorFileLoader
        from fairseq2.model_checkpoint.basic import _BasicModelCheckpointLoader
        from fairseq2.model_checkpoint.delegating import _DelegatingModelCheckpointLoader
        from fairseq2.model_checkpoint.native import _NativeModelCheckpointLoader
        from fairseq2.model_checkpoint.safetensors import _SafetensorsCheckpointLoader
        from fairseq2.models.llama.checkpoint import _LLaMACheckpointLoader

        self.state = State()
        self.fs = make_memfs(self.state)

        class NoContext(GangContext):
            def get_current_gangs(self, device: Any = None) -> Any:
                raise AssertionError

            def set_gangs(self, gangs: Any, *, meta: bool = False) -> Any:
                raise AssertionError

        tl = _TorchTensorFileLoader(self.fs)
        sl = _HuggingFaceSafetensorsLoader(self.fs)
        c = NoContext()
        self.loader = _DelegatingModelCheckpointLoader(
            [
                _BasicModelCheckpointLoader(self.fs, tl, c),
                _SafetensorsCheckpointLoader(self.fs, sl, c),
                _LLaMACheckpointLoader(self.fs, tl, c),
                _NativeModelCheckpointLoader(self.fs, tl, c),
            ],
            self.fs,
        )

    def put(self, path: Path, data: bytes) -> None:
        for p in reversed(path.parents):
            self.state.nodes.setdefault(str(p), self.state.nodes["/"])
        self.state.nodes[str(path)] = bytearray(data)

    def put_native(self, pp: list[list[list[dict]]]) -> None:
        for i, tps in enumerate(pp):
            for j, dps in enumerate(tps):
                for k, d in enumerate(dps):
                    self.put(ROOT / f"pp_{i:02d}" / f"tp_{j:02d}" / f"sdp_{k:02d}.pt", dump(d))


def gangs_for(tp: int, r: int, sdp: int, sr: int) -> Any:
    from fairseq2.gang import FakeGang, Gangs

    dev = torch.device("cpu")
    one = FakeGang(dev)
    dp = FakeGang(dev, rank=sr, size=sdp)
    return Gangs(
        root=FakeGang(dev, rank=r + tp * sr, size=tp * sdp), dp=dp, rdp=one, sdp=dp,
        tp=FakeGang(dev, rank=r, size=tp), pp=one,
    )


# ---------------------------------------------------------------- the checks


def load(box: Box, path: Path, dims: dict[str, int], tp: int, r: int, sdp: int = 1, sr: int = 0, conv: Any = None) -> list[tuple[str, Tensor]]:
    from fairseq2.model_checkpoint import ModelCheckpointLoadOptions

    o = ModelCheckpointLoadOptions(gangs=gangs_for(tp, r, sdp, sr), state_dict_converter=conv)
    return list(box.loader.lazy_load(path, dims, o))


def judge(what: str, got: list[tuple[str, Tensor]], full: dict, dims: dict, alias: dict, tp: int, r: int) -> None:
    seen: dict[str, Tensor] = {}
    for k, v in got:
        if k in seen:
            raise Violation("key-twice", f"{what}: {k} is yielded twice")
        seen[k] = v
    for k, v in full.items():
        exp = tp_part(v, dims.get(k), tp, r)
        names = [k] + [a for a, b in alias.items() if b == k]
        here = [n for n in names if n in seen]
        if not here:
            raise Violation("key-lost", f"{what}: {k} is not yielded")
        if len(names) == 1 or True:
            for n in here:
                if seen[n].shape != exp.shape or not torch.equal(seen[n], exp):
                    raise Violation("wrong-shard", f"{what}: {n} has shape {tuple(seen[n].shape)} values {seen[n].flatten()[:6].tolist()}.. instead of shape {tuple(exp.shape)} values {exp.flatten()[:6].tolist()}..")
    extra = set(seen) - set(full) - set(alias)
    if extra:
        raise Violation("key-extra", f"{what}: unexpected {sorted(extra)}")


class Model(torch.nn.Module):
    """Has the parameters of one tensor parallel rank."""

    def __init__(self, full: dict, dims: dict, alias: dict, tp: int, r: int) -> None:
        super().__init__()
        for k, v in full.items():
            self._at(k).register_parameter(k.split(".")[1], torch.nn.Parameter(torch.full_like(tp_part(v, dims.get(k), tp, r), -7.0)))
        for a, k in alias.items():
            self._at(a).register_parameter(a.split(".")[1], getattr(self._at(k), k.split(".")[1]))

    def _at(self, key: str) -> torch.nn.Module:
        name = key.split(".")[0]
        if not hasattr(self, name):
            self.add_module(name, torch.nn.Module())
        return getattr(self, name)


def load_into(box: Box, path: Path, full: dict, dims: dict, alias: dict, tp: int, r: int) -> Model:
    from fairseq2.model_checkpoint import ModelCheckpointLoadOptions
    from fairseq2.models.utils.checkpoint import set_model_state
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

    m = Model(full, dims, alias, tp, r)
    o = ModelCheckpointLoadOptions(gangs=gangs_for(tp, r, 1, 0))
    set_model_state(m, box.loader.lazy_load(path, dims, o), NOOP_PROGRESS_REPORTER)
    return m


def judge_model(what: str, m: Model, full: dict, dims: dict, alias: dict, tp: int, r: int) -> None:
    sd = m.state_dict()
    for k, v in full.items():
        exp = tp_part(v, dims.get(k), tp, r)
        for n in [k] + [a for a, b in alias.items() if b == k]:
            if not torch.equal(sd[n], exp):
                raise Violation("model-state", f"{what}: parameter {n} is {sd[n].flatten()[:6].tolist()}.. instead of {exp.flatten()[:6].tolist()}..")


def rename(d: dict[str, object]) -> dict[str, object]:
    return {k.replace("old_", ""): v for k, v in d.items()}


def check_native(rep: Report, stps: tuple[int, ...], big: bool) -> None:
    ttps = (1, 2, 3, 4, 6) if big else (1, 2, 3, 4)
    for stp in stps:
        for sdp, empty, variant in itertools.product((1, 2, 3, 4), ("omit", "flat", "zero"), ("plain", "tied")):
            if sdp == 1 and empty != "omit":
                continue
            full, dims, alias = full_state(variant)
            for pp, conv in ((1, False), (1, True), (2, False)):
                if conv and not big and (sdp > 2 or variant == "tied"):
                    continue
                box = Box()
                rows = shard_dicts(full, dims, alias, stp, sdp, empty)
                if conv:
                    rows = [[{"old_" + k: v for k, v in d.items()} for d in row] for row in rows]
                if pp == 1:
                    stages = [rows]
                else:
                    first = {"emb.weight", "q.weight", "q.bias"}
                    stages = [
                        [[{k: v for k, v in d.items() if (k in first) == a} for d in row] for row in rows]
                        for a in (True, False)
                    ]
                box.put_native(stages)
                for ttp in ttps:
                    for r in range(ttp):
                        what = f"native checkpoint pp={pp} tp={stp} sdp={sdp} (empty shards: {empty}) {variant} converter={conv} loaded with tp={ttp} rank {r}"
                        try:
                            for ts, tr in ((1, 0), (2, 1)):
                                got = load(box, ROOT, dims, ttp, r, ts, tr, rename if conv else None)
                                judge(what, got, full, dims, alias, ttp, r)
                                rep.count("loads")
                            if not conv:
                                judge_model(what, load_into(box, ROOT, full, dims, alias, ttp, r), full, dims, alias, ttp, r)
                                rep.count("loads")
                        except Violation as v:
                            rep.violate(v.key, v.msg)
                        rep.case((pp, stp, sdp, empty, variant, conv, ttp, r))


def check_formats(rep: Report, big: bool) -> None:
    """Single-file, Safetensors, and LLaMA reference checkpoints."""
    from safetensors.torch import save

    for variant in ("plain", "tied"):
        full, dims, alias = full_state(variant)
        boxes: list[tuple[str, Box, Path]] = []
        all_ = dict(full)
        for a, k in alias.items():
            all_[a] = all_[k]
        for ext in ("pt", "pth", "bin"):
            b = Box()
            b.put(ROOT / f"model.{ext}", dump(all_))
            boxes.append((ext, b, ROOT / f"model.{ext}"))
        sep = {k: v.clone() for k, v in all_.items()}
        b = Box()
        b.put(ROOT / "model.safetensors", save(sep))
        boxes.append(("safetensors file", b, ROOT / "model.safetensors"))
        boxes.append(("safetensors directory", b, ROOT))
        for nfiles in (2, 3):
            names = list(sep)
            # Every way to cut the keys into consecutive files.
            for cuts in itertools.combinations(range(1, len(names)), nfiles - 1):
                if not big and sum(cuts) % 2:
                    continue
                b = Box()
                edges = [0, *cuts, len(names)]
                for i in range(nfiles):
                    part = names[edges[i] : edges[i + 1]]
                    b.put(ROOT / f"model-{i + 1:05d}-of-{nfiles:05d}.safetensors", save({k: sep[k] for k in part}))
                b.put(ROOT / "config.json", b"{}")
                boxes.append((f"safetensors in {nfiles} files {cuts}", b, ROOT))
        for stp in (1, 2, 3, 4):
            b = Box()
            rows = shard_dicts(full, dims, alias, stp, 1, "omit")
            for i, row in enumerate(rows):
                b.put(ROOT / f"consolidated.{i:02d}.pth", dump(row[0]))
            b.put(ROOT / "params.json", b"{}")
            boxes.append((f"llama reference tp={stp}", b, ROOT))
        for name, b, path in boxes:
            for ttp in (1, 2, 3, 4):
                for r in range(ttp):
                    what = f"{name} ({variant}) loaded with tp={ttp} rank {r}"
                    try:
                        judge(what, load(b, path, dims, ttp, r), full, dims, alias, ttp, r)
                        judge_model(what, load_into(b, path, full, dims, alias, ttp, r), full, dims, alias, ttp, r)
                    except Violation as v:
                        rep.violate(v.key, v.msg)
                    rep.count("loads", 2)
                    rep.case((name, variant, ttp, r))


# -------------------------------------------------------------------- faults


def rejected(what: str, rep: Report, fn: Callable[[], Any], key: str, strict: bool = True) -> None:
    """fn must report the fault as documented (strict) or fail somehow."""
    from fairseq2.model_checkpoint import CorruptModelCheckpointError
    from fairseq2.models.utils.checkpoint import ModelCheckpointMismatchError

    rep.count("faults")
    rep.case(what)
    try:
        fn()
    except (CorruptModelCheckpointError, ModelCheckpointMismatchError):
        return
    except Exception as ex:  # noqa: BLE001
        if not strict:
            return
        rep.violate(key + "-error", f"{what}: not reported as an erroneous or mismatching checkpoint, but with {ex!r}")
        return
    rep.violate(key + "-accepted", f"{what}: accepted silently")


def check_faults(rep: Report, big: bool) -> None:
    full, dims, alias = full_state("plain")
    for stp, sdp, ttp in itertools.product((1, 2), (1, 2), (1, 2, 4)):
        base = shard_dicts(full, dims, alias, stp, sdp, "omit")

        def variants() -> Iterator[tuple[str, list]]:
            def copy() -> list:
                return [[dict(d) for d in row] for row in base]

            for k in full:
                rows = copy()
                for row in rows:
                    for d in row:
                        d.pop(k, None)
                yield f"no {k}", rows
                rows = copy()
                for row in rows:
                    for d in row:
                        if k in d:
                            d[k + "2"] = d[k].clone()
                yield f"unexpected {k}2", rows
                for i, j in itertools.product(range(stp), range(sdp)):
                    if k in base[i][j]:
                        rows = copy()
                        rows[i][j][k] = 3.0  # type: ignore[assignment]
                        yield f"{k} is not a tensor in shard {i}.{j}", rows
                        if (i > 0 or j > 0) and (i == 0 or k in dims):
                            rows = copy()
                            del rows[i][j][k]
                            yield f"no {k} in shard {i}.{j}", rows
                        rows = copy()
                        v = rows[i][j][k]
                        rows[i][j][k] = torch.cat([v, v[:1]], dim=0)
                        if k in dims or i == 0:
                            yield f"{k} too long in shard {i}.{j}", rows
                        if v.ndim == 2 and (k in dims or i == 0):
                            rows = copy()
                            rows[i][j][k] = torch.cat([v, v[:, :1]], dim=1)
                            yield f"{k} too wide in shard {i}.{j}", rows

        for name, rows in variants():
            box = Box()
            box.put_native([rows])
            what = f"native checkpoint tp={stp} sdp={sdp} with tp={ttp}: {name}"

            def run() -> None:
                # At least one process must notice.
                err: Exception | None = None
                for r in range(ttp):
                    try:
                        load_into(box, ROOT, full, dims, alias, ttp, r)
                    except Exception as ex:  # noqa: BLE001
                        err = ex
                if err:
                    raise err

            # Shards that contradict each other may fail in any way.
            rejected(what, rep, run, "fault", strict="in shard" not in name or "tensor" in name)

        # Missing files
        names = [(i, j) for i in range(stp) for j in range(sdp)]
        for i, j in names:
            if stp * sdp == 1:
                continue
            box = Box()
            box.put_native([base])
            del box.state.nodes[str(ROOT / "pp_00" / f"tp_{i:02d}" / f"sdp_{j:02d}.pt")]

            def run2() -> None:
                err: Exception | None = None
                for r in range(ttp):
                    try:
                        load_into(box, ROOT, full, dims, alias, ttp, r)
                    except Exception as ex:  # noqa: BLE001
                        err = ex
                if err:
                    raise err

            rejected(f"native checkpoint tp={stp} sdp={sdp} with tp={ttp}: no file of shard {i}.{j}", rep, run2, "lost-file", strict=False)


def check_duplicates(rep: Report) -> None:
    """The same key in two Safetensors files, whatever their values."""
    from safetensors.torch import save

    full, dims, alias = full_state("plain")
    names = list(full)
    n = len(names)
    for cut in range(1, n):
        files = [names[:cut], names[cut:]]
        for k in names:
            for kind in ("same", "other", "other shape"):
                b = Box()
                for i, part in enumerate(files):
                    sd = {x: full[x].clone() for x in part}
                    if k not in sd:
                        v = full[k].clone()
                        sd[k] = v if kind == "same" else v + 1 if kind == "other" else torch.cat([v, v])
                    b.put(ROOT / f"model-{i + 1:05d}-of-00002.safetensors", save(sd))
                rejected(f"safetensors: key {k} in both files, {kind}, cut {cut}", rep, lambda: load(b, ROOT, dims, 1, 0), "duplicate-key")


def check_torn(rep: Report, big: bool) -> None:
    """Every truncation of one file of a checkpoint."""
    from safetensors.torch import save

    full, dims, alias = full_state("plain")
    rows = shard_dicts(full, dims, alias, 2, 2, "omit")
    box = Box()
    box.put_native([rows])
    cases = [("native", box, ROOT, ROOT / "pp_00" / "tp_01" / "sdp_00.pt")]
    b = Box()
    b.put(ROOT / "model.pt", dump(full))
    cases.append(("basic", b, ROOT / "model.pt", ROOT / "model.pt"))
    b = Box()
    b.put(ROOT / "model.safetensors", save(full))
    cases.append(("safetensors", b, ROOT, ROOT / "model.safetensors"))
    b = Box()
    for i, row in enumerate(shard_dicts(full, dims, alias, 2, 1, "omit")):
        b.put(ROOT / f"consolidated.{i:02d}.pth", dump(row[0]))
    cases.append(("llama", b, ROOT, ROOT / "consolidated.00.pth"))
    for name, b, path, file in cases:
        orig = bytes(b.state.nodes[str(file)])
        for n in range(len(orig)):
            if not big and n > 300 and n % 7 and len(orig) - n > 40:
                continue
            b.state.nodes[str(file)] = bytearray(orig[:n])
            rejected(f"{name} checkpoint: {file.name} truncated to {n} of {len(orig)} bytes", rep, lambda: load(b, path, dims, 1, 0), "torn")
        b.state.nodes[str(file)] = bytearray(orig)
        judge("restored", load(b, path, dims, 1, 0), full, dims, alias, 1, 0)


# ------------------------------------------- from training to another topology


def check_manager(rep: Report, big: bool) -> None:
    """Models saved by the training checkpoint manager of one topology load
    into a model of another topology."""
    from fairseq2.gang import set_gangs
    from fairseq2.nn import ColumnShardedLinear, RowShardedLinear, ShardedEmbedding, VocabShardedEmbedding

    class Net(torch.nn.Module):
        def __init__(self) -> None:
            super().__init__()
            self.e = VocabShardedEmbedding(24, 3)
            self.f = ShardedEmbedding(5, 12)
            self.c = ColumnShardedLinear(3, 12, True)
            self.r = RowShardedLinear(12, 2, True)
            self.n = torch.nn.LayerNorm(3)

    def net(gangs: Any, seed: int) -> Any:
        with set_gangs(gangs):
            torch.manual_seed(seed)
            return Net()

    for stp, ttp in itertools.product((1, 2, 3, 4), repeat=2):
        box = Box()
        mk_save_and_load(rep, box, stp, ttp, net)
        rep.case(("manager", stp, ttp))


def mk_save_and_load(rep: Report, box: Box, stp: int, ttp: int, net: Any) -> None:
    from fairseq2.model_checkpoint import ModelCheckpointLoadOptions
    from fairseq2.models.utils.checkpoint import set_model_state
    from fairseq2.nn.sharded import get_shard_dims
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

    from checks.ckpt_common import CKPT, make_manager

    def save(r: int, gangs: Any) -> None:
        m = net(gangs, 5)
        make_manager(box.fs, gangs).save_model_only(1, m, blocking=True)

    run_ranks(stp, save, tp_size=stp)
    root = CKPT.joinpath("step_1", "model")

    bad: list[str] = []

    def restore(r: int, gangs: Any) -> None:
        m = net(gangs, 6)
        exp = net(gangs, 5)
        o = ModelCheckpointLoadOptions(gangs=gangs)
        set_model_state(m, box.loader.lazy_load(root, get_shard_dims(m), o), NOOP_PROGRESS_REPORTER)
        for (k, a), (_, b) in zip(m.named_parameters(), exp.named_parameters()):
            if not torch.equal(a, b):
                bad.append(f"rank {r}: {k}")

    run_ranks(ttp, restore, tp_size=ttp)
    rep.count("round_trips")
    if bad:
        rep.violate("round-trip", f"model saved with tp={stp} and loaded with tp={ttp}: {bad[:4]} differ from the saved parameters")


def check(rep: Report) -> None:
    big = rep.tier == "thorough"
    rep.cov["rule"] = (
        "every source layout (pipeline x tensor x sharded data parallel sizes, uneven shards, shared tensors, formats) x "
        "every rank of every target layout; every single fault (lost key, file, alien key, wrong shape, non-tensor) and truncation"
    )
    jobs: list[Callable[[Report], None]] = []
    for stp in (1, 2, 3, 4):
        jobs.append(lambda r, s=stp: check_native(r, (s,), big))
    jobs.append(lambda r: check_formats(r, big))
    jobs.append(lambda r: check_faults(r, big))
    jobs.append(check_duplicates)
    jobs.append(lambda r: check_torn(r, big))
    jobs.append(lambda r: check_manager(r, big))
    run_jobs(rep, jobs)
