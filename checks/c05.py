"""C05: the cards published for a checkpoint directory agree with its content."""

from __future__ import annotations

import itertools
from pathlib import Path

from checks.ckpt_common import Box, content, fake_gangs
from mc.memfs import State, make_memfs
from mc.par import run_jobs
from mc.report import Report, Violation

LEVEL = "model_checking"


def check_dir(rep: Report, root: Path, steps, kinds, scores) -> None:
    from fairseq2.assets import StandardAssetStore, YamlAssetMetadataFileLoader
    from fairseq2.checkpoint import (
        StandardCheckpointManager,
        StandardModelMetadataDumper,
        StandardModelMetadataLoader,
    )
    from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader
    from fairseq2.utils.structured import StandardValueConverter
    from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader
    from mc.sched import make_inline_pool

    st = State()
    fs = make_memfs(st)
    ckpt = root.joinpath("checkpoints")
    m = StandardCheckpointManager(
        root, fake_gangs(), fs, _TorchTensorFileLoader(fs), _TorchTensorFileDumper(fs), make_inline_pool()
    )
    StandardModelMetadataDumper(
        fs, RuamelYamlDumper(fs), StandardValueConverter()
    ).dump(ckpt, "fam", {"dim": 4, "name": "a: b", "xs": [1, 2.5, None]})
    for n, kind in reversed(list(zip(steps, kinds))):
        c = content(n, 0)
        if kind == "full":
            m.save_checkpoint(
                n, *[Box(c[k]) for k in ("trainer", "model", "optimizer", "data_reader")], blocking=True
            )
        else:
            m.save_model_only(n, Box(c["model"]), blocking=True)
    for n, s in zip(steps, scores):
        if s is not None:
            m.save_score(n, s)
    fs.make_directory(ckpt.joinpath("step_77.tmp/model"))
    loader = StandardModelMetadataLoader(fs, YamlAssetMetadataFileLoader(RuamelYamlLoader(fs)))
    store = StandardAssetStore([loader.load(ckpt)])
    rep.count("states")
    rep.case((str(root), steps, kinds, scores))
    where = {"root": str(root), "steps": list(zip(steps, kinds)), "scores": scores}

    def target(name: str) -> Path:
        card = store.maybe_retrieve_card(name)
        if card is None:
            raise Violation("missing-card", f"no card named {name}", where)
        if card.field("model_family").as_(str) != "fam":
            raise Violation("family", f"{name} has the wrong family", where)
        if card.field("model_config").value != {"dim": 4, "name": "a: b", "xs": [1, 2.5, None]}:
            raise Violation("config", f"{name} has the wrong config", where)
        rep.count("transitions")
        return card.field("checkpoint").as_uri().to_path()

    def dirof(n: int) -> Path:
        return ckpt.joinpath(f"step_{n}/model")

    names = {"checkpoint@"}
    for n in steps:
        names.add(f"checkpoint_step_{n}@")
        p = target(f"checkpoint_step_{n}")
        if p != dirof(n):
            raise Violation("wrong-dir", f"checkpoint_step_{n} points to {p}", where)
        if not fs.is_dir(p):
            raise Violation("wrong-dir", f"checkpoint_step_{n} points to {p}: no such directory", where)
    if steps:
        names.add("last_checkpoint@")
        p = target("last_checkpoint")
        if p != dirof(m.maybe_get_last_step_number()):
            raise Violation("last", f"last_checkpoint points to {p}", where)
    ranked = m.load_scores()
    for i, (_, n) in enumerate(ranked):
        names.add(f"best_checkpoint_{i}@")
        if target(f"best_checkpoint_{i}") != dirof(n):
            raise Violation("best-rank", f"best_checkpoint_{i} is not the {i}. best", where)
    if ranked:
        names.add("best_checkpoint@")
        if target("best_checkpoint") != dirof(ranked[0][1]):
            raise Violation("best", "best_checkpoint is not the highest scored one", where)
        hi = max(s for s in scores if s is not None)
        if dict(zip(steps, scores))[ranked[0][1]] != hi:
            raise Violation("best", "the best checkpoint does not have the highest score", where)
    if set(store.asset_names) != names:
        raise Violation("names", f"cards {sorted(store.asset_names)}, expected {sorted(names)}", where)


def check(rep: Report) -> None:
    roots = [Path("/mcfs/run"), Path("/mcfs/my run #1/50%25?"), Path("/mcfs/a;b&c=é")]
    steps = (2, 10, 11) if not rep.thorough else (2, 3, 10, 11)
    dom = (None, 0.5, -1.25, 3e-05)
    cases = []
    for root in roots:
        for r in range(len(steps) + 1):
            for sub in itertools.combinations(steps, r):
                for sc in itertools.product(dom, repeat=r):
                    kinds = tuple("full" if (i + r) % 2 else "model" for i in range(r))
                    cases.append((root, sub, kinds, sc))
    n = 8

    def job(i):
        def f(r: Report) -> None:
            for c in cases[i::n]:
                check_dir(r, *c)
            r.sample({"root": str(c[0]), "steps": c[1], "kinds": c[2], "scores": c[3]})

        return f

    run_jobs(rep, [job(i) for i in range(n)])
