"""S01: a recipe runs with exactly the configuration the user asked for.

Every sequence of overrides up to a length (in files, on the command line, for
models) is applied by the real code and compared with a reference; every
configuration that is reached survives being written and read again."""

from __future__ import annotations

import copy
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from collections.abc import Mapping, Sequence, Set
from dataclasses import dataclass, field, fields, is_dataclass, make_dataclass
from enum import Enum
from pathlib import Path
from types import NoneType, UnionType
from typing import Any, Callable, Iterator, Literal, Union, get_args, get_origin, get_type_hints

from mc import boot
from mc.par import run_jobs
from mc.report import Report, Violation

boot.init()

import torch  # noqa: E402

from fairseq2.data_type import DataType  # noqa: E402
from fairseq2.device import Device  # noqa: E402
from fairseq2.recipe import cli, config as rc  # noqa: E402
from fairseq2.recipe.error import RecipeConfigParseError  # noqa: E402
from fairseq2.recipe.internal.config import _RecipeConfigHolder  # noqa: E402
from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator  # noqa: E402
from fairseq2.utils.config import (  # noqa: E402
    ReplaceEnvDirective,
    ReplacePathDirective,
    StandardConfigMerger,
    StandardConfigProcessor,
)
from fairseq2.utils.structured import StandardValueConverter, StructureError  # noqa: E402
from fairseq2.utils.validation import StandardObjectValidator, ValidationError, ValidationResult  # noqa: E402
from fairseq2.world_info import WorldInfo  # noqa: E402

LEVEL = "model_checking"

# ------------------------------------------------------------------- values


class Color(Enum):
    RED = 1
    BLUE = 2


@dataclass
class Leaf:
    n: int = 1
    s: str = "x"


@dataclass
class Other:
    p: Path = Path("a")
    leaf: Leaf | None = None


@dataclass
class Strict:
    n: int
    done: bool = field(init=False, default=True)


BASE: list[tuple[Any, list[Any]]] = [
    (bool, [False, True]),
    (int, [0, -7, 12345678901]),
    (float, [0.0, -1.5, 1e-05, 1e20, 3.0, float("inf")]),
    (str, ["", "x", "1", "1e5", "null", "true", "a: b", "- a", "ü 'q' \"d\"", "${x}", "two\nlines", " pad "]),
    (Path, [Path("/a/b c"), Path("rel")]),
    (DataType, [torch.float16, torch.int64]),
    (Device, [Device("cpu"), Device("cuda:1"), Device("meta")]),
    (Color, [Color.RED, Color.BLUE]),
    (Literal["on", "off"], ["on", "off"]),
    (Leaf, [Leaf(), Leaf(5, "null")]),
    (Other, [Other(), Other(Path("b"), Leaf(2, "y"))]),
    (Strict, [Strict(4)]),
    (Union[Leaf, list[int], None], [None, Leaf(3), [1], []]),
    (Union[None, Literal["on"], list[str], dict[str, int]], [None, "on", ["on"], {"on": 1}]),
]


def types(depth: int) -> list[tuple[Any, list[Any]]]:
    out = list(BASE)
    layer = list(BASE)
    for _ in range(depth):
        nxt: list[tuple[Any, list[Any]]] = []
        for t, vs in layer:
            v0, v1 = vs[0], vs[-1]
            nxt += [
                (t | None if not get_origin(t) is Literal else Union[t, None], [None, *vs]),
                (Union[None, t], [None, *vs]),
                (list[t], [[], list(vs)]),
                (Sequence[t], [[], list(vs)]),
                (dict[str, t], [{}, {"a": v0, "null": v1}]),
                (Mapping[str, t], [{}, {"1": v1}]),
                (dict[int, t], [{3: v0}]),
                (tuple[t, ...], [(), tuple(vs)]),
                (tuple[t, int], [(v1, 2)]),
            ]
            if all(_hashable(v) for v in vs):
                nxt += [(set[t], [set(), set(vs)]), (Set[t], [set(vs)])]
            nxt.append((make_dataclass("D", [("f", t), ("g", t, field(default_factory=lambda v=v1: copy.deepcopy(v)))]), []))
            d = nxt[-1][0]
            nxt[-1] = (d, [d(v0), d(v1, v0)])
        out += nxt
        layer = nxt
    return out


def _hashable(v: Any) -> bool:
    try:
        hash(v)
    except TypeError:
        return False
    return True


def conforms(v: Any, t: Any) -> bool:
    o, a = get_origin(t) or t, get_args(t)
    if o is object or o is Any:
        return True
    if o in (Union, UnionType):
        return any(conforms(v, x) for x in a)
    if o is Literal:
        return v in a
    if t is None or o is NoneType:
        return v is None
    if o in (list, Sequence):
        return isinstance(v, list) and all(conforms(e, a[0]) for e in v)
    if o in (set, Set):
        return isinstance(v, set) and all(conforms(e, a[0]) for e in v)
    if o is tuple:
        if not isinstance(v, tuple):
            return False
        if len(a) == 2 and a[1] is Ellipsis:
            return all(conforms(e, a[0]) for e in v)
        return len(v) == len(a) and all(conforms(e, x) for e, x in zip(v, a))
    if o in (dict, Mapping):
        return isinstance(v, dict) and all(conforms(k, a[0]) and conforms(e, a[1]) for k, e in v.items())
    if is_dataclass(o):
        h = get_type_hints(o)
        return type(v) is o and all(conforms(getattr(v, f.name), h[f.name]) for f in fields(o))
    return isinstance(v, o)


def same(a: Any, b: Any, loose: bool = False) -> bool:
    """Equality that tells 1, 1.0 and True apart, unless it is loose."""
    if type(a) is not type(b):
        if loose and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        return isinstance(a, Path) and isinstance(b, Path) and a == b
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], loose) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, loose) for x, y in zip(a, b))
    if is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name), loose) for f in fields(a))
    return bool(a == b) or bool(a != a and b != b)


def yaml_text(obj: Any) -> str:
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.utils.yaml import RuamelYamlDumper

    f = io.StringIO()
    RuamelYamlDumper(LocalFileSystem()).dump(obj, f)
    return f.getvalue()


def yaml_read(text: str) -> Any:
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.utils.yaml import RuamelYamlLoader

    return RuamelYamlLoader(LocalFileSystem()).load(io.StringIO(text))[0]


def plain(x: Any) -> bool:
    if x is None or type(x) in (bool, int, float, str):
        return True
    if type(x) is list:
        return all(plain(e) for e in x)
    return type(x) is dict and all(plain(k) and plain(v) for k, v in x.items())


def job_values(rep: Report, k: int, n: int) -> None:
    conv = StandardValueConverter()
    ts = types(2)
    for i, (t, vs) in enumerate(ts):
        if i % n != k:
            continue
        deep = i >= len(types(1)) and not rep.thorough
        for v in vs:
            rep.case(("value", str(t), repr(v)))
            what = f"{v!r} of type {t}"
            try:
                before = copy.deepcopy(v)
                u = conv.unstructure(v)
                if not plain(u):
                    raise Violation("value-unstructure", f"{what}: unstructured to {u!r}")
                back = conv.structure(u, t)
                if not same(back, before) or not same(v, before):
                    raise Violation("value-roundtrip", f"{what}: became {back!r} via {u!r}")
                if not same(conv.structure(v, t), before):
                    raise Violation("value-identity", f"{what}: structured to {conv.structure(v, t)!r}")
                if not deep:
                    text = yaml_text({"k": u})
                    y = yaml_read(text)["k"]
                    if not same(conv.structure(y, t), before):
                        raise Violation("value-yaml", f"{what}: written as {text!r}, read as {conv.structure(y, t)!r}")
            except StructureError as ex:
                rep.violate("value-refused", f"{what}: {ex}: {ex.__cause__}")
            except Violation as x:
                rep.violate(x.key, x.msg)
    # Anything else is refused or becomes a value of the type.
    junk: list[Any] = [None, True, 0, 7, 1.5, float("inf"), float("nan"), -0.5, "", "x", "7", "1.5", "RED", "float16", "torch.float16", "cpu", "nope:1", "on", [], ["x"], [1, 1], {}, {"a": 1},
                       {"n": 1}, {"n": "x"}, {"n": 1, "s": "y", "z": 2}, {"p": "a", "leaf": {"n": "3"}}, {1: 2}, ["1", 2], (1, 2), {"f": 1}, {"done": False, "n": 1}]
    for i, (t, _) in enumerate(types(1) if not rep.thorough else ts):
        if i % n != k:
            continue
        for j in junk:
            rep.case(("junk", str(t), repr(j)))
            before = copy.deepcopy(j)
            try:
                v = conv.structure(j, t)
            except StructureError:
                v = None
            except Exception as ex:  # noqa: BLE001
                rep.violate("value-exception", f"{j!r} as {t}: {type(ex).__name__}: {ex}")
                continue
            else:
                if isinstance(j, float) and type(v) is int and v != j:
                    rep.violate("value-rounded", f"{j!r} as {t}: became {v!r}")
                if not conforms(v, t):
                    rep.violate("value-type", f"{j!r} as {t}: became {v!r}")
            if not same(j, before):
                rep.violate("value-input", f"{before!r} as {t}: the input became {j!r}")


# ------------------------------------------------------------------ merging


def ref_merge(t: Any, o: Any) -> Any:
    if not isinstance(o, dict):
        return o
    out = {k: v for k, v in t.items() if k not in o.get("_del_", [])} if isinstance(t, dict) else {}
    for k, v in o.items():
        if k not in ("_del_", "_set_"):
            out[k] = ref_merge(out.get(k), v)
    out.update(o.get("_set_", {}))
    return out


def trees(depth: int, special: bool) -> list[Any]:
    leaves: list[Any] = [None, 1, ["x"]]
    if depth == 0:
        return leaves
    sub = trees(depth - 1, special)
    out = list(leaves)
    opt_a = [None] + [(x,) for x in sub]
    opt_b = [None] + [(x,) for x in sub[:4] + sub[-2:]]
    dels: list[Any] = [None, ["a"], ["a", "b"], ["zz"]] if special else [None]
    sets: list[Any] = [None, {"a": {"c": 2}}, {"b": 5, "n": None}] if special else [None]
    for a, b, d, s in itertools.product(opt_a, opt_b, dels, sets):
        m: dict[str, Any] = {}
        if a:
            m["a"] = a[0]
        if s is not None:
            m["_set_"] = s
        if b:
            m["b"] = b[0]
        if d is not None:
            m["_del_"] = d
        out.append(m)
    return out


def scribble(x: Any) -> None:
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x["scribble"] = 1
    elif isinstance(x, list):
        x.append("scribble")


def job_merge(rep: Report, k: int, n: int) -> None:
    mg = StandardConfigMerger()
    targets = trees(2, False)
    ovs = trees(1, True)
    deep = trees(2, True)
    for i, t in enumerate(targets):
        if i % n != k:
            continue
        for j, o in enumerate(itertools.chain(ovs, deep[i % 97 :: 97] if not rep.thorough else deep)):
            rep.case(("merge", i, j))
            t1, o1 = copy.deepcopy(t), copy.deepcopy(o)
            try:
                got = mg.merge(t1, o1)
            except Exception as ex:  # noqa: BLE001
                rep.violate("merge-exception", f"merge of {o} into {t}: {type(ex).__name__}: {ex}")
                continue
            want = ref_merge(copy.deepcopy(t), copy.deepcopy(o))
            if not same_unordered(got, want):
                rep.violate("merge", f"merge of {o} into {t}: {got}, expected {want}")
            if t1 != t or o1 != o:
                rep.violate("merge-input", f"merge of {o} into {t} changed its arguments")
            if isinstance(o, dict):
                scribble(got)
                if t1 != t or o1 != o:
                    rep.violate("merge-alias", f"the result of a merge of {o} into {t} shares values with its arguments")
    if k == 0:
        for bad in ({"_del_": "a"}, {"_del_": [1]}, {"_set_": 1}, {"_set_": {1: 2}}, {"a": {"_del_": {"a": 1}}}):
            rep.case(("merge-bad", str(bad)))
            try:
                mg.merge({"a": {"b": 1}}, bad)
            except (TypeError, ValueError):
                continue
            rep.violate("merge-bad", f"{bad} is accepted")


def same_unordered(a: Any, b: Any) -> bool:
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_unordered(a[k], b[k]) for k in a)
    return same(a, b)


# ------------------------------------------------------------- command line

ITEMS = [
    "a=1", "a={}", "a={c: 1}", "a.b=2", "a.b={x: [1]}", "a.c.d=null", "set:a.b={y: 2}", "b=text", "b=1e-5", "b='1'", "b = 3 ", "b=x=y",
    "del:a.b", "del:a", "del:b", "b=[1, 2]", "b=",
]
PARSED: dict[str, Any] = {"1": 1, "{}": {}, "{c: 1}": {"c": 1}, "2": 2, "{x: [1]}": {"x": [1]}, "null": None, "{y: 2}": {"y": 2}, "text": "text", "1e-5": 1e-5,
                          "'1'": "1", "3": 3, "x=y": "x=y", "[1, 2]": [1, 2], "": None}


def ref_cli(t: dict, items: Sequence[str]) -> dict:
    for it in items:
        it = it.strip()
        dele = it.startswith("del:")
        path, _, val = it.removeprefix("del:").removeprefix("set:").partition("=")
        keys = path.strip().split(".")
        node = t
        for k in keys[:-1]:
            if not isinstance(node.get(k), dict):
                node[k] = {}
            node = node[k]
        if dele:
            node.pop(keys[-1], None)
        else:
            node[keys[-1]] = copy.deepcopy(PARSED[val.strip()])
    return t


def parse(argv: list[str]) -> Any:
    saved = sys.argv
    sys.argv = ["recipe", *argv]
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        return cli._parse_args()
    except SystemExit:
        return None
    finally:
        sys.argv, sys.stderr = saved, err


def job_cli(rep: Report, k: int, n: int) -> None:
    mg = StandardConfigMerger()
    target = {"a": {"b": {"x": 0}, "c": {}}, "b": "old"}
    depth = 4 if rep.thorough else 3
    i = 0
    for d in range(depth + 1):
        for seq in itertools.product(ITEMS if d < 4 else ITEMS[:14:2] + ITEMS[13:14], repeat=d):
            i += 1
            if i % n != k:
                continue
            # In one option, or in one option each.
            for argv in (["/out", "--config", *seq], ["/out", *itertools.chain(*(("--config", s) for s in seq))]) if d > 1 else (["/out", "--config", *seq],):
                rep.case(("cli", tuple(argv)))
                args = parse(argv)
                if args is None:
                    rep.violate("cli-refused", f"{argv} is refused")
                    continue
                got: Any = copy.deepcopy(target)
                for o in args.config_overrides or []:
                    got = mg.merge(got, o)
                want = ref_cli(copy.deepcopy(target), seq)
                if not same_unordered(got, want):
                    rep.violate("cli", f"{argv} makes {target} {got}, expected {want}")
    if k == 0:
        for bad in ("a", "del:a=1", "a={", "a=[1"):
            rep.case(("cli-bad", bad))
            if parse(["/out", "--config", bad]) is not None:
                rep.violate("cli-bad", f"{bad!r} is accepted")


# ----------------------------------------------------------------- recipes


@dataclass(kw_only=True)
class MyDataset(rc.DatasetSection):
    family: str = "my"
    splits: dict[str, list[str]] = field(default_factory=lambda: {"train": ["a"]})
    extras: list[rc.TokenizerSection] = field(default_factory=list)
    names: list[str] | None = None
    opts: dict[str, rc.OptimizerSection] = field(default_factory=lambda: {"o": rc.OptimizerSection(name="adafactor", config=rc.AdafactorConfig())})
    scheds: list[rc.LRSchedulerSection] = field(default_factory=lambda: [rc.LRSchedulerSection(name="myle", config=rc.MyleLRConfig())])
    tags: set[str] = field(default_factory=lambda: {"one", "two", "three", "four", "five"})


@dataclass(kw_only=True)
class MyConfig:
    model: rc.ModelSection = field(default_factory=lambda: rc.ModelSection())
    reference: rc.ReferenceModelSection | None = None
    dataset: MyDataset = field(default_factory=lambda: MyDataset())
    tokenizer: rc.TokenizerSection = field(default_factory=lambda: rc.TokenizerSection())
    gang: rc.GangSection = field(default_factory=lambda: rc.GangSection())
    trainer: rc.TrainerSection = field(default_factory=lambda: rc.TrainerSection())
    optimizer: rc.OptimizerSection = field(default_factory=lambda: rc.OptimizerSection())
    lr_scheduler: rc.LRSchedulerSection = field(default_factory=lambda: rc.LRSchedulerSection())
    regime: rc.RegimeSection = field(default_factory=lambda: rc.RegimeSection())
    evaluator: rc.EvaluatorSection = field(default_factory=lambda: rc.EvaluatorSection())
    generator: rc.GeneratorSection = field(default_factory=lambda: rc.GeneratorSection())
    seq_generator: rc.SequenceGeneratorSection = field(default_factory=lambda: rc.SequenceGeneratorSection())
    seq2seq_generator: rc.Seq2SeqGeneratorSection = field(default_factory=lambda: rc.Seq2SeqGeneratorSection())
    common: rc.CommonSection = field(default_factory=lambda: rc.CommonSection())


COMPONENTS = {
    "optimizer": {"adamw": rc.AdamWConfig, "adafactor": rc.AdafactorConfig},
    "lr_scheduler": {
        "cosine_annealing": rc.CosineAnnealingLRConfig, "myle": rc.MyleLRConfig, "noam": rc.NoamLRConfig,
        "polynomial_decay": rc.PolynomialDecayLRConfig, "tri_stage": rc.TriStageLRConfig,
    },
    "seq_generator": {"sampling": rc.SamplingConfig, "beam_search": rc.BeamSearchConfig},
    "seq2seq_generator": {"sampling": rc.SamplingConfig, "beam_search": rc.BeamSearchConfig},
}


def values_of(t: Any) -> list[Any]:
    """Values of a type, as a user would write them and as they are expected: [(written, value)]."""
    o, a = get_origin(t) or t, get_args(t)
    if o is bool:
        return [(False, False), (True, True)]
    if o is int:
        return [(0, 0), (37, 37), ("41", 41)]
    if o is float:
        return [(0.25, 0.25), (3, 3.0), (0.3, 0.3), (0.1 + 0.2, 0.1 + 0.2), (1e-05, 1e-05), ("1e-7", 1e-7)]
    if o is str:
        return [("x", "x"), ("null", "null"), ("1", "1"), ("a.b", "a.b"), ("a b/c", "a b/c"), ("ab/c", "ab/c")]
    if o is Path:
        return [("/p/q", Path("/p/q")), ("/pq", Path("/pq"))]
    if o is DataType:
        return [("float16", torch.float16), ("torch.int8", torch.int8)]
    if o is Literal:
        return [(x, x) for x in a]
    if o is NoneType:
        return [(None, None)]
    if o in (Union, UnionType):
        out = []
        for x in a:
            out += [v for v in values_of(x) if not (o is not None and isinstance(v[0], str) and x in (int, float) and len(a) > 2)]
        return out
    if o is tuple and len(a) == 2 and a[1] is Ellipsis:
        return [([], ())] + [([w], (v,)) for w, v in values_of(a[0])[:2]]
    if o is tuple:
        return [([w for w, _ in c], tuple(v for _, v in c)) for c in zip(*([*(values_of(x)[:2])] for x in a))]
    if o in (list, Sequence):
        vs = values_of(a[0])[:2]
        return [([], []), ([w for w, _ in vs], [v for _, v in vs])]
    if o in (set, Set):
        vs = values_of(a[0])[:2]
        return [([w for w, _ in vs], {v for _, v in vs})]
    if o in (dict, Mapping):
        return [({"k.k": w}, {"k.k": v}) for w, v in values_of(a[1])[:2]]
    if is_dataclass(o):
        try:
            o()
        except TypeError:
            return []
        out = [({}, o())]
        h = get_type_hints(o)
        for f in fields(o)[:3]:
            if issubclass(o, rc.SupportsStructure):
                break  # Only registered names are accepted.
            for w, v in values_of(h[f.name])[:1]:
                x = o()
                setattr(x, f.name, v)
                out.append(({f.name: w}, x))
        return out
    return []


def leaves(kls: type, obj: Any, path: tuple[str, ...]) -> Iterator[tuple[tuple[str, ...], Any, Any]]:
    h = get_type_hints(kls)
    for f in fields(kls):
        v = getattr(obj, f.name)
        if h[f.name] is object:
            if is_dataclass(v):
                yield from leaves(type(v), v, path + (f.name,))
            continue
        if is_dataclass(v) and not isinstance(v, type):
            yield from leaves(type(v), v, path + (f.name,))
        yield path + (f.name,), h[f.name], v


def put(cfg: Any, path: tuple[str, ...], v: Any) -> None:
    for p in path[:-1]:
        cfg = getattr(cfg, p)
    setattr(cfg, path[-1], copy.deepcopy(v))


def nest(path: tuple[str, ...], w: Any) -> Any:
    for p in reversed(path):
        w = {p: w}
    return w


class Loader:
    def __init__(self, tmp: Path) -> None:
        from fairseq2.composition import _register_library
        from fairseq2.recipe.base import TrainRecipe
        from fairseq2.recipe.composition import _register_train_recipe
        from fairseq2.runtime.dependency import DependencyContainer

        class R(TrainRecipe):
            def create_task(self, context: Any) -> Any:
                raise NotImplementedError()

            create_trainer = create_task

            @property
            def config_kls(self) -> Any:
                return MyConfig

        args = parse([str(tmp)])
        c = DependencyContainer()
        _register_library(c, no_progress=True)
        recipe = R()
        _register_train_recipe(c, recipe)
        cli._register_main(c, args, recipe)
        self.c = c
        self.loader = c.resolve(cli._RecipeConfigLoader)
        self.tmp = tmp
        self.file = tmp / "c.yaml"
        self.conv = StandardValueConverter()

    def load(self, file: Any = None, argv: Sequence[str] = ()) -> Any:
        f = None
        if file is not None:
            self.file.write_text(file if isinstance(file, str) else json.dumps(file))
            f = self.file
        args = parse(["/out", *argv])
        if args is None:
            raise Violation("load-cli", f"{argv} is refused")
        return self.loader.load(MyConfig, f, args.config_overrides)

    def dump(self, cfg: Any) -> str:
        from fairseq2.utils.yaml import YamlDumper

        f = io.StringIO()
        cli._RecipeConfigPrinter(_RecipeConfigHolder(cfg), self.conv, self.c.resolve(YamlDumper)).print(f)
        return f.getvalue()

    def tag(self, cfg: Any, size: int = 2) -> Any:
        return _StandardSweepTagGenerator(cfg.common, WorldInfo(0, size, 0, 1), _RecipeConfigHolder(cfg), self.conv).maybe_generate()


def changes(choice: dict[str, str]) -> tuple[Any, dict, list]:
    """The default configuration with some components, overrides that select them, and single changes of it."""
    base = MyConfig()
    over: dict[str, Any] = {}
    for sec, name in choice.items():
        s = getattr(base, sec)
        if s.name != name:
            s.name, s.config = name, COMPONENTS[sec][name]()
            over[sec] = {"_set_": {"name": name, "config": {}}}
    out = []
    for path, t, cur in leaves(MyConfig, base, ()):
        if path[-1] == "name" and path[0] in COMPONENTS and len(path) > 1:
            continue  # Only registered names are accepted.
        if path[0] in COMPONENTS and is_dataclass(t):
            continue
        if path[:2] in (("common", "sweep_format"), ("common", "no_sweep_dir")):
            continue
        for w, v in values_of(t):
            if same(v, cur) or (is_dataclass(v) and v == cur):
                continue
            out.append((path, w, v))
    return base, over, out


def job_recipe(rep: Report, k: int, n: int) -> None:
    tmp = Path(tempfile.mkdtemp(prefix="s01."))
    try:
        ld = Loader(tmp)
        choices = []
        for sec, names in COMPONENTS.items():
            choices += [{sec: x} for x in names]
        seen: set = set()
        for ci, ch in enumerate(choices):
            base, over, chs = changes(ch)
            sec = next(iter(ch))
            for i, (path, w, v) in enumerate(chs):
                if path[0] != sec and ci:
                    continue  # All the others are taken with the first choice.
                if i % n != k:
                    continue
                one(rep, ld, base, over, [(path, w, v)])
        if k == 0:
            one(rep, ld, MyConfig(), {}, [])
        # Pairs of changes, one in the file and one on the command line, or both in either.
        base, over, chs = changes({})
        few = {}
        for path, w, v in chs:
            few.setdefault(path, (path, w, v))
        pairs = list(itertools.permutations(few.values(), 2))
        step = 1 if rep.thorough else 11
        for i, (x, y) in enumerate(pairs):
            if i % n == k and (i // n) % step == 0 and x[0] != y[0][: len(x[0])] and y[0] != x[0][: len(y[0])]:
                one(rep, ld, base, over, [x, y], brief=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def one(rep: Report, ld: Loader, base: Any, over: dict, chs: list, brief: bool = False) -> None:
    what = "; ".join(f"{'.'.join(p)}={json.dumps(w)}" for p, w, _ in chs) or "no change"
    if over:
        what += f" with {over}"
    want = copy.deepcopy(base)
    for p, _, v in chs:
        put(want, p, v)
    try:
        cfg: Any = None
        forms: list[tuple[str, Any, list[str]]] = []
        sel = [f"{s}={json.dumps(d['_set_'])}" for s, d in over.items()]

        def tree(cs: list) -> dict:
            out: dict = copy.deepcopy(over)
            for p, w, _ in cs:
                # Maps are merged, so that they have to be set to be replaced.
                o = nest(p[:-1], {"_set_": {p[-1]: w}} if isinstance(w, dict) else {p[-1]: w})
                if over and p[0] in out:
                    if len(p) < 3:
                        continue
                    out[p[0]]["_set_"]["config"] = nest(p[2:], w)
                else:
                    out = deep_update(out, o)
            return out

        def items(cs: list) -> list[str]:
            return [f"{'.'.join(p)}={json.dumps(w)}" for p, w, _ in cs]

        opt = lambda s: ["--config", *s] if s else []  # noqa: E731
        if not brief:
            forms.append(("file", tree(chs), []))
            forms.append(("command line", None, opt(sel + items(chs))))
        else:
            forms.append(("file and command line", tree(chs[:1]), opt(items(chs[1:]))))
            forms.append(("command line", None, opt(items(chs))))
        for form, f, argv in forms:
            rep.case((what, form))
            cfg = ld.load(f, argv)
            if not same(cfg, want):
                raise Violation("recipe-config", f"{what} ({form}): the configuration is {diff(cfg, want)}")
        text = ld.dump(cfg)
        # What is not in a file keeps its default, so that the keys of maps are only replaced on request.
        back = ld.load("_set_:\n" + "".join("  " + l for l in text.splitlines(True)))
        if not same(back, want):
            raise Violation("recipe-dump", f"{what}: dumped and read again: {diff(back, want)}")
        rep.count("dumps")
        if not brief:
            t0, t1 = ld.tag(cfg), ld.tag(back)
            if t0 != t1 or ld.tag(want) != t0:
                raise Violation("tag-unstable", f"{what}: sweep tags of equal configurations are {t0}, {t1}, {ld.tag(want)}")
            if chs and ld.tag(base) == t0:
                raise Violation("tag-same", f"{what}: the sweep tag is the one of the default configuration")
            if ld.tag(cfg, 4) == t0:
                raise Violation("tag-world", f"{what}: the sweep tag does not depend on the number of processes")
    except Violation as x:
        rep.violate(x.key, x.msg)
    except (RecipeConfigParseError, StructureError) as ex:
        c: Any = ex
        while c.__cause__ is not None:
            c = c.__cause__
        rep.violate("recipe-refused", f"{what}: {ex} ({c})")


def deep_update(a: Any, b: Any) -> Any:
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: deep_update(a[k], b[k]) if k in a and k in b else b.get(k, a.get(k)) for k in {**a, **b}}
    return b


def diff(a: Any, b: Any, path: str = "") -> str:
    if is_dataclass(a) and type(a) is type(b):
        return ", ".join(x for f in fields(a) if (x := diff(getattr(a, f.name), getattr(b, f.name), f"{path}.{f.name}")))
    return "" if same(a, b) else f"{path[1:]} is {a!r} instead of {b!r}"


def job_tags(rep: Report) -> None:
    """Configurations that differ have different sweep tags, equal ones equal tags in all processes."""
    tmp = Path(tempfile.mkdtemp(prefix="s01."))
    try:
        ld = Loader(tmp)
        _, _, chs = changes({})
        seen: dict[str, Any] = {}
        for path, w, v in chs:
            c = MyConfig()
            put(c, path, v)
            t = ld.tag(c)
            rep.case(("tag", path, repr(v)))
            key = repr(ld.conv.unstructure(c))
            if t in seen and seen[t][1] != key:
                rep.violate("tag-collision", f"{'.'.join(path)}={w} and {seen[t][0]} have the same sweep tag {t}")
            seen.setdefault(t, (f"{'.'.join(path)}={w}", key))
        # Formats
        c = MyConfig()
        toks = ["{", "}", "{{", "}}", "x", "{world_size}", "{common.seed}", "{zz}", "{}"]
        for d in range(1, 5):
            for seq in itertools.product(toks, repeat=d):
                s = "".join(seq)
                c.common.sweep_format = s
                want = ref_format(s, {"world_size": "2", "common.seed": "2"})
                try:
                    got: Any = ld.tag(c)
                except ValidationError:
                    got = None
                rep.case(("format", s))
                if got != want:
                    rep.violate("tag-format", f"sweep format {s!r} gives {got!r}, expected {want!r}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ref_format(s: str, tags: dict[str, str]) -> Any:
    out, i = "", 0
    while i < len(s):
        if s[i] == "{":
            if s[i + 1 : i + 2] == "{":
                out += "{"
                i += 2
                continue
            j = s.find("}", i)
            if j < 0 or s[i + 1 : j] not in tags:
                return None
            out += tags[s[i + 1 : j]]
            i = j + 1
        elif s[i] == "}":
            if s[i + 1 : i + 2] != "}":
                return None
            out += "}"
            i += 2
        else:
            out += s[i]
            i += 1
    return out


PROC = r"""
import json, sys
sys.path.insert(0, sys.argv[1])
from mc import boot
boot.init()
from pathlib import Path
from checks import s01
import tempfile, shutil
tmp = Path(tempfile.mkdtemp(prefix="s01."))
try:
    ld = s01.Loader(tmp)
    c = s01.MyConfig()
    print(json.dumps([ld.tag(c), ld.dump(c)]))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
"""


def job_processes(rep: Report) -> None:
    root = str(Path(__file__).resolve().parent.parent)
    outs = []
    ps = [
        subprocess.Popen([sys.executable, "-W", "ignore", "-c", PROC, root], stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
        for seed in range(4)
    ]
    for seed, p in enumerate(ps):
        out, _ = p.communicate(timeout=600)
        if p.returncode:
            raise RuntimeError(f"process {seed} has failed")
        outs.append(json.loads(out.strip().splitlines()[-1]))
        rep.case(("process", seed))
    if len({t for t, _ in outs}) != 1:
        rep.violate("tag-process", f"processes of one job compute different sweep tags: {[t for t, _ in outs]}")


# ------------------------------------------------------------ model configs


def job_models(rep: Report, k: int, n: int) -> None:
    from fairseq2.models import ModelFamily
    from fairseq2.recipe.internal.asset_config import _StandardAssetConfigOverrider
    from fairseq2.runtime.dependency import get_dependency_resolver
    from fairseq2.utils.env import StandardEnvironment

    res = get_dependency_resolver()
    conv = StandardValueConverter()
    ov = _StandardAssetConfigOverrider(conv, StandardConfigMerger(), StandardConfigProcessor([ReplaceEnvDirective(StandardEnvironment())]), StandardObjectValidator())
    i = 0
    for _, fam in sorted(families(res), key=lambda e: e[0]):
        for arch in sorted(fam.get_archs()):
            i += 1
            if i % n != k:
                continue
            cfg = fam.maybe_get_arch_config(arch)
            what = f"{fam.name} {arch}"
            before = copy.deepcopy(cfg)
            for o in ({}, None):
                got = ov.apply_overrides("model", cfg, o)
                rep.case((what, str(o)))
                if not same(got, before, True):
                    rep.violate("model-identity", f"{what}: overriding with {o}: {diff(got, before)}")
            y = yaml_read(yaml_text(conv.unstructure(cfg)))
            if not same(conv.structure(y, type(cfg)), before, True):
                rep.violate("model-yaml", f"{what}: written and read again: {diff(conv.structure(y, type(cfg)), before)}")
            for path, t, cur in leaves(type(cfg), cfg, ()):
                for w, v in values_of(t)[: None if rep.thorough else 2]:
                    want = copy.deepcopy(before)
                    put(want, path, v)
                    try:
                        got = ov.apply_overrides("model", cfg, nest(path[:-1], {"_set_": {path[-1]: w}} if isinstance(w, dict) else {path[-1]: w}))
                    except ValidationError:
                        rep.count("invalid")
                        continue
                    except RecipeConfigParseError as ex:
                        rep.violate("model-refused", f"{what}: {'.'.join(path)}={w}: {ex.__cause__}")
                        continue
                    rep.case((what, path, repr(w)))
                    if not same(got, want, True):
                        rep.violate("model-override", f"{what}: {'.'.join(path)}={w}: {diff(got, want)}")
                    if not same(cfg, before, True):
                        rep.violate("model-base", f"{what}: {'.'.join(path)}={w} changes the base configuration")
                        cfg = copy.deepcopy(before)


def families(res: Any) -> list:
    from fairseq2.models import ModelFamily

    return [(str(name), res.resolve(ModelFamily, key=name)) for name in res.iter_keys(ModelFamily)]


# --------------------------------------------------------------- directives


class Env:
    def __init__(self, d: dict[str, str]) -> None:
        self.d = d

    def maybe_get(self, name: str) -> str | None:
        return self.d.get(name)

    def get(self, name: str) -> str:
        return self.d[name]

    def has(self, name: str) -> bool:
        return name in self.d


def job_directives(rep: Report) -> None:
    env = {"A": "va", "B": "${dir}", "C": "", "D": "${env:A}"}
    toks = ["${dir}", "${env:A}", "${env:Z}", "${env:A:d}", "${env:Z:d e:f}", "${env:C:d}", "${env:Z:}", "$", "{", "}", "x", "${env:}", "${env:1}", "${dir", "${env:B}", "${env:D}"]
    p1 = StandardConfigProcessor([ReplaceEnvDirective(Env(env))])  # type: ignore[arg-type]
    d1 = ReplacePathDirective(Path("/cfg dir"))

    def ref_env(s: str) -> str:
        out, i = "", 0
        while i < len(s):
            m = re.compile(r"\$\{env:([A-Za-z_]\w*)(:[^}]*)?\}").match(s, i)
            if m:
                v = env.get(m[1])
                out += v if v is not None else (m[2] or ":")[1:]
                i = m.end()
            else:
                out += s[i]
                i += 1
        return out

    for d in range(1, 4):
        for seq in itertools.product(toks, repeat=d):
            s = "".join(seq)
            for dirs in ([], [d1]):
                want = ref_env(s)
                if dirs:
                    want = want.replace("${dir}", "/cfg dir")
                rep.case(("directive", s, len(dirs)))
                cfg = {"k": [s, {"n": s, s: 1}], "i": 3, "z": None}
                before = copy.deepcopy(cfg)
                got = p1.process(cfg, dirs)
                if got != {"k": [want, {"n": want, s: 1}], "i": 3, "z": None}:
                    rep.violate("directive", f"{s!r} becomes {got}, expected {want!r}")
                if cfg != before:
                    rep.violate("directive-input", f"{s!r}: the configuration itself is changed")


# --------------------------------------------------------------- validation


@dataclass
class Node:
    bad: bool
    x: Any = None
    y: Any = None

    def validate(self) -> ValidationResult:
        r = ValidationResult()
        if self.bad:
            r.add_error("broken.")
        return r


@dataclass
class Plain:
    x: Any = None


@dataclass(frozen=True)
class Elem:
    bad: bool

    def validate(self) -> ValidationResult:
        return Node(self.bad).validate()


def job_validate(rep: Report) -> None:
    def objs(depth: int) -> list[tuple[Any, list[str]]]:
        """Objects and the paths of the errors in them."""
        out: list[tuple[Any, list[str]]] = [(1, []), ("s", []), (Node(False), []), (Node(True), [""]), ({Elem(True)}, ["[0]"]), (frozenset([Elem(False)]), [])]
        if depth == 0:
            return out
        sub = objs(depth - 1)

        def at(pre: str, errs: list[str]) -> list[str]:
            return [pre + ("." if e and not e.startswith("[") else "") + e for e in errs]

        for a, ea in sub:
            out.append((Plain(a), at("x", ea)))
            for wrap, pre in ((lambda v: [0, v], "[1]"), (lambda v: (v,), "[0]"), (lambda v: {"k": v}, "['k']"), (lambda v: {3: v}, "[3]")):
                out.append((wrap(a), at(pre, ea)))
            for b, eb in sub[: 8 if depth > 1 else None]:
                for bad in (False, True):
                    out.append((Node(bad, a, b), ([""] if bad else []) + at("x", ea) + at("y", eb)))
        return out

    for o, errs in objs(2):
        rep.case(("validate", repr(o)))
        try:
            StandardObjectValidator().validate(o)
            got: Any = None
        except ValidationError as ex:
            got = str(ex)
        want = " ".join(f"`{e}` is not valid: broken." if e else "broken." for e in errs) if errs else None
        if got != want:
            rep.violate("validate", f"{o!r}: {got!r}, expected {want!r}")


def check(rep: Report) -> None:
    jobs: list[Callable] = [job_tags, job_processes, job_directives, job_validate]

    def add(fn: Callable, n: int) -> None:
        for k in range(n):
            jobs.append(lambda r, k=k: fn(r, k, n))

    add(job_recipe, 12)
    add(job_models, 6)
    add(job_cli, 6)
    add(job_values, 4)
    add(job_merge, 4)
    run_jobs(rep, jobs)
    rep.cov["rule"] = "evaluations: configurations, override sequences, values and merges executed on the real code"
