"""A02: an asset name always means the same card.

Small worlds of assets (names, environments, bases, sources) are enumerated, and
every name is looked up in each of them with the real store and a reference."""

from __future__ import annotations

import copy
import io
import itertools
import os
import shutil
import tempfile
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Iterator

from mc import boot
from mc.par import run_jobs
from mc.report import Report, Violation

boot.init()

from fairseq2.assets import (  # noqa: E402
    AssetCardError,
    AssetMetadataError,
    AssetNotFoundError,
    FileAssetMetadataSource,
    InMemoryAssetMetadataSource,
    StandardAssetDirectoryAccessor,
    StandardAssetStore,
    StandardFileAssetMetadataLoader,
    WellKnownAssetMetadataSource,
    YamlAssetMetadataFileLoader,
)
from fairseq2.assets.card import StandardAssetConfigLoader  # noqa: E402
from fairseq2.assets.metadata_provider import (  # noqa: E402
    AssetSourceNotFoundError,
    CachedAssetMetadataProvider,
    load_in_memory_asset_metadata,
)
from fairseq2.file_system import LocalFileSystem  # noqa: E402
from fairseq2.utils.config import ReplaceEnvDirective, StandardConfigMerger, StandardConfigProcessor  # noqa: E402
from fairseq2.utils.structured import StandardValueConverter  # noqa: E402
from fairseq2.utils.yaml import RuamelYamlLoader  # noqa: E402

LEVEL = "model_checking"

DIRS = ["/cards/one", "/cards/two/sub"]


class Text:
    """A file system of which the YAML loader reads one text."""

    def __init__(self, text: str) -> None:
        self.text = text

    def open_text(self, path: Path, mode: Any = None) -> Any:
        return io.StringIO(self.text)


_cache: dict = {}


def parse(text: str, d: str) -> tuple[str, dict]:
    """What the real loader reads from a file in directory `d`."""
    key = (text, d)
    if key not in _cache:
        loader = YamlAssetMetadataFileLoader(RuamelYamlLoader(Text(text)))  # type: ignore[arg-type]
        (item,) = loader.load(Path(d, "f.yaml"), "x")
        _cache[key] = item
    name, md = _cache[key]
    return name, copy.deepcopy(md)


@dataclass(frozen=True)
class Entry:
    name: str
    env: str
    src: int
    fields: str
    base: str | None

    def text(self) -> str:
        t = f"name: {self.name}" + (f"@{self.env}" if self.env else "") + "\n"
        if self.base:
            t += f"base: {self.base}\n"
        for f in self.fields:
            t += f"f: {self.name}{self.env}{self.src}\n" if f == "f" else f"p: ./{self.name}{self.env}.pt\n" if f == "p" else "n: null\n"
        return t


def entries(name: str, env: str, fields: list[str], bases: list[str | None], srcs: list[int], absent: bool) -> list[Entry | None]:
    out: list[Entry | None] = [None] if absent else []
    return out + [Entry(name, env, s, f, b) for f in fields for b in bases for s in srcs]


def worlds(thorough: bool) -> Iterator[list[Entry]]:
    both = [0, 1]
    for es in itertools.product(
        entries("a", "", ["", "f", "fp", "n"], [None, "a", "b", "zz"], [0], False),
        entries("a", "user", ["", "f", "p"], [None, "a", "b", "c"], both, True),
        entries("a", "dev", ["f"] if not thorough else ["f", "p"], [None] if not thorough else [None, "c"], [1], True),
        entries("b", "", ["", "fp"], [None, "a", "c"], both, True),
        entries("b", "user", ["p"], [None] if not thorough else [None, "c"], [0], True),
        entries("c", "", ["fp"], [None] if not thorough else [None, "a"], [1], True),
    ):
        yield [e for e in es if e is not None]


class Broken(Exception):
    pass


def ref_card(world: dict[tuple[str, str], Entry], name: str, envs: list[str], seen: tuple = ()) -> list[dict[str, tuple[Entry, str]]]:
    """The layers of a card: field -> (the entry which has it, value)."""
    main = world.get((name, ""))
    if main is None:
        raise Broken()
    if name in seen:
        raise Broken()
    fs = {f: main for f in main.fields}
    base = main.base
    for env in envs:
        e = world.get((name, env))
        if e is not None:
            fs.update({f: e for f in e.fields})
            if e.base is not None and e.base != name:
                base = e.base
            break
    layer = {f: (e, {"f": f"{e.name}{e.env}{e.src}", "p": f"./{e.name}{e.env}.pt", "n": None}[f]) for f, e in fs.items()}
    return [layer] + (ref_card(world, base, envs, seen + (name,)) if base is not None else [])


def providers(es: list[Entry]) -> list[CachedAssetMetadataProvider]:
    mds: list[dict] = [{}, {}]
    for e in es:
        name, md = parse(e.text(), DIRS[e.src])
        mds[e.src][name] = md
    return [CachedAssetMetadataProvider(f"path:{d}", md) for d, md in zip(DIRS, mds)]


def job_worlds(rep: Report, k: int, n: int) -> None:
    queries = ["a", "a@", "a@user", "a@dev", " a ", "a@zz", "a @ user ", "b", "c", "zz", "", "@user"]
    for i, es in enumerate(worlds(rep.thorough)):
        if i % n != k:
            continue
        world = {(e.name, e.env): e for e in es}
        for default in (None, "dev"):
            store = StandardAssetStore(providers(es), default_env=default)
            std = ["user"] + ([default] if default else [])
            broken = False
            found: dict[str, Any] = {}
            for q in queries:
                what = f"{q!r} with assets {[e.text() for e in es]}, environment {default}"
                name, _, env = q.partition("@")
                name, env = name.strip(), env.strip()
                envs = ([env] if env else []) if "@" in q else std
                want: Any
                if (name, "") not in world:
                    want = None
                else:
                    try:
                        want = ref_card(world, name, envs)
                    except Broken:
                        want = "broken"
                        broken = True
                rep.case((tuple(es), default, q))
                try:
                    got: Any = store.maybe_retrieve_card(q)
                except AssetCardError:
                    got = "broken"
                except RecursionError:
                    rep.violate("card-cycle", f"{what}: RecursionError")
                    continue
                if want is None or want == "broken" or got is None or got == "broken":
                    if got != want:
                        rep.violate("card-missing", f"{what}: {got}, expected {'a card' if isinstance(want, list) else want}")
                    if want is None:
                        try:
                            store.retrieve_card(q)
                            rep.violate("card-not-found", f"{what}: retrieve_card() finds it")
                        except AssetNotFoundError:
                            pass
                    continue
                try:
                    compare(got, want, name)
                except Violation as x:
                    rep.violate(x.key, f"{what}: {x.msg}")
                if "@" not in q:
                    found[name] = want
                # What is done with a card does not come back.
                got.metadata["f"] = "changed"
            if not broken:
                for f in ("f", "p", "n"):
                    vals = {first(w, f)[1] for w in found.values() if first(w, f)}
                    for v in vals:
                        if v is None:
                            continue
                        got2 = sorted(c.name for c in store.find_cards(f, v))
                        want2 = sorted(x for x, w in found.items() if first(w, f) and first(w, f)[1] == v)
                        rep.case((tuple(es), default, f, v))
                        if got2 != want2:
                            rep.violate("find-cards", f"cards with {f}={v} in {[e.text() for e in es]}, environment {default}: {got2}, expected {want2}")


def first(layers: list, f: str) -> Any:
    return next((la[f] for la in layers if f in la), None)


def compare(card: Any, want: list, name: str) -> None:
    if card.name != name:
        raise Violation("card-name", f"the card is named {card.name}")
    for f in ("f", "p", "n", "zz"):
        w = first(want, f)
        fld = card.maybe_get_field(f)
        if (fld is not None) != (w is not None) or card.has_field(f) != (w is not None):
            raise Violation("card-field", f"field {f} is {'missing' if w else 'there'}")
        if w is None:
            try:
                card.field(f)
            except AssetCardError:
                continue
            raise Violation("card-field-missing", f"field {f} does not exist, but can be read")
        if card.field(f).value != w[1] or fld.value != w[1]:
            raise Violation("card-value", f"field {f} is {fld.value!r}, expected {w[1]!r}")
        if f == "p":
            uri = str(fld.as_uri())
            e = w[0]
            exp = "file://" + os.path.normpath(f"{DIRS[e.src]}/{e.name}{e.env}.pt")
            if os.path.normpath(uri.removeprefix("file://")) != exp.removeprefix("file://"):
                raise Violation("card-path", f"relative path of {e.name}@{e.env} in {DIRS[e.src]} is {uri}")
    n = 0
    c: Any = card
    while c is not None:
        n += 1
        c = c.base
    if n < len(want):
        raise Violation("card-bases", f"the card has {n - 1} bases, expected {len(want) - 1}")


# -------------------------------------------------------------------- sources


def job_names(rep: Report) -> None:
    """Which names are valid, in files and in memory; names are unique."""
    toks = ["a", " ", "@", "user", "b"]
    names = sorted({"".join(s) for d in range(5) for s in itertools.product(toks, repeat=d)})

    def canon(s: str) -> str | None:
        p = s.split("@")
        if len(p) > 2 or not p[0].strip():
            return None
        return p[0].strip() + "@" + (p[1].strip() if len(p) == 2 else "")

    def of_memory(md: dict) -> Any:
        try:
            prov = load_in_memory_asset_metadata("s", [md])
        except AssetMetadataError:
            return None
        (nm,) = prov.asset_names
        return nm, prov.maybe_get_metadata(nm)

    def of_file(md: dict) -> Any:
        import json

        try:
            return parse(json.dumps(md), DIRS[0])
        except AssetMetadataError:
            return None

    for s in names:
        for read in (of_memory, of_file):
            rep.case(("name", s, read.__name__))
            got = read({"name": s, "x": 1})
            if (got[0] if got else None) != canon(s):
                rep.violate("asset-name", f"name {s!r} ({read.__name__}): {got}, expected {canon(s)}")
            got = read({"name": "q", "base": s, "x": 1})
            want = s.strip() if s.strip() and "@" not in s else None
            if (got[1]["base"] if got else None) != want:
                rep.violate("base-name", f"base {s!r} ({read.__name__}): {got}, expected {want}")
    for bad in ({}, {"name": 3}, {"name": None}, {"name": ["a"]}, {"name": "a", "base": 3}):
        for read in (of_memory, of_file):
            rep.case(("bad", str(bad), read.__name__))
            if read(dict(bad)) is not None:
                rep.violate("asset-bad", f"{bad} is accepted")
    # The same source can be loaded again.
    src = InMemoryAssetMetadataSource("s", [{"name": "a", "x": 1}, {"name": "b@user", "base": " a "}])
    res = []
    for _ in range(2):
        try:
            ps = list(src.load())
        except AssetMetadataError as ex:
            rep.violate("source-again", f"an in-memory source cannot be loaded twice: {ex}")
            break
        res.append([(nm, ps[0].maybe_get_metadata(nm)) for nm in sorted(ps[0].asset_names)])
    rep.case("source-again")
    if len(res) == 2 and res[0] != res[1]:
        rep.violate("source-again", f"an in-memory source has {res[1]} the second time")


def job_files(rep: Report) -> None:
    """Every small tree of files."""
    fs = LocalFileSystem()
    loader = StandardFileAssetMetadataLoader(fs, YamlAssetMetadataFileLoader(RuamelYamlLoader(fs)))
    contents = ["name: a\nf: 1\n", "name: a@user\nf: 2\n", "name: b\nf: 3\n---\nname: c\nbase: b\n", "", "name: a\nf: 4\n"]
    spots = ["x.yaml", "y.yml", "z.txt", "sub/x.yaml", "sub/deep/w.yaml", ".h.yaml"]
    tmp = Path(tempfile.mkdtemp(prefix="a02."))
    try:
        for d in range(0, 4):
            for places in itertools.combinations(spots, d):
                for texts in itertools.product(contents, repeat=d):
                    root = tmp / "t"
                    shutil.rmtree(root, ignore_errors=True)
                    root.mkdir()
                    exp: dict[str, tuple] = {}
                    dup = False
                    for p, t in zip(places, texts):
                        f = root / p
                        f.parent.mkdir(parents=True, exist_ok=True)
                        f.write_text(t)
                        if not p.endswith(("yaml", "yml")):
                            continue
                        for doc in t.split("---\n"):
                            if doc:
                                nm = doc.split("\n")[0].removeprefix("name: ")
                                nm = nm if "@" in nm else nm + "@"
                                dup = dup or nm in exp
                                exp[nm] = (f.parent.resolve(), doc)
                    rep.case((places, texts))
                    what = f"files {dict(zip(places, texts))}"
                    try:
                        prov = loader.load(root)
                    except AssetMetadataError as ex:
                        if not dup:
                            rep.violate("files-refused", f"{what}: {ex}")
                        continue
                    if dup:
                        rep.violate("files-duplicate", f"{what}: an asset that is defined twice is accepted")
                        continue
                    if set(prov.asset_names) != set(exp):
                        rep.violate("files-names", f"{what}: assets {sorted(prov.asset_names)}, expected {sorted(exp)}")
                        continue
                    for nm, (par, doc) in exp.items():
                        md = prov.maybe_get_metadata(nm)
                        if md is None or Path(str(md["__base_path__"])) != par or ("f: " in doc and f"f: {md['f']}\n" not in doc):
                            rep.violate("files-metadata", f"{what}: {nm} is {md}")
        # A single file, or none.
        one = tmp / "one.yaml"
        one.write_text(contents[2])
        if set(loader.load(one).asset_names) != {"b@", "c@"}:
            rep.violate("file-names", "a single file is not read")
        for ok in (False, True):
            src = FileAssetMetadataSource(tmp / "none", loader, ok)
            try:
                got = list(src.load())
            except AssetSourceNotFoundError:
                got = None  # type: ignore[assignment]
            rep.case(("missing", ok))
            if got != ([] if ok else None):
                rep.violate("file-missing", f"missing source with not_exist_ok={ok}: {got}")
        # The same asset in several sources.
        for name, name2 in itertools.product(("a", "a@user", "b"), repeat=2):
            ps = [load_in_memory_asset_metadata(f"s{i}", [{"name": x}]) for i, x in enumerate(("q", name, name2))]
            rep.case(("sources", name, name2))
            try:
                st = StandardAssetStore(ps)
                if name == name2:
                    rep.violate("source-duplicate", f"{name} in two sources is accepted")
                elif len(st.asset_names) != 3:
                    rep.violate("source-names", f"assets {st.asset_names}")
            except AssetMetadataError:
                if name != name2:
                    rep.violate("source-refused", f"{name} and {name2} in two sources are refused")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Env:
    def __init__(self, d: dict[str, str]) -> None:
        self.d = d

    def maybe_get(self, name: str) -> str | None:
        return self.d.get(name)

    def get(self, name: str) -> str:
        return self.d[name]

    def has(self, name: str) -> bool:
        return name in self.d


def job_dirs(rep: Report) -> None:
    """Every combination of set, dangling and missing directories."""
    tmp = Path(tempfile.mkdtemp(prefix="a02."))
    home = os.environ.get("HOME")
    fs = LocalFileSystem()
    try:
        for v in ("sys", "usr", "xdg/fairseq2/assets", "xdgempty", "home0", "home1/.config/fairseq2/assets"):
            (tmp / v).mkdir(parents=True)
            if "empty" not in v and v != "home0":
                (tmp / v / "m.yaml").write_text(f"name: {v.split('/')[0]}\n")
        sysd = [None, "sys", "nope"]
        usrd = [None, "usr", "nope"]
        xdg = [None, "xdg", "xdgempty", "nope"]
        loader = StandardFileAssetMetadataLoader(fs, YamlAssetMetadataFileLoader(RuamelYamlLoader(fs)))
        for s, u, x, h, c, xc in itertools.product(sysd, usrd, xdg, ("home0", "home1"), (None, "cc", "~/cc"), (None, "xc")):
            os.environ["HOME"] = str(tmp / h)
            env = {}
            for key, val in (("FAIRSEQ2_ASSET_DIR", s), ("FAIRSEQ2_USER_ASSET_DIR", u), ("XDG_CONFIG_HOME", x), ("FAIRSEQ2_CACHE_DIR", c), ("XDG_CACHE_HOME", xc)):
                if val is not None:
                    env[key] = val if val.startswith("~") else str(tmp / val)
            acc = StandardAssetDirectoryAccessor(Env(env), fs)  # type: ignore[arg-type]
            r = tmp.resolve()

            def there(p: Path) -> Path | None:
                return p if p.exists() else None

            want_s = r / "sys" if s == "sys" else there(Path("/etc/fairseq2/assets"))
            if u == "usr":
                want_u: Any = r / "usr"
            elif x is not None:
                want_u = there(r / x / "fairseq2/assets")
            else:
                want_u = there(r / h / ".config/fairseq2/assets")
            want_c = r / "cc" if c == "cc" else r / h / "cc" if c else r / "xc/fairseq2/assets" if xc else r / h / ".cache/fairseq2/assets"
            got = (acc.maybe_get_system_dir(), acc.maybe_get_user_dir(), acc.get_cache_dir())
            rep.case((s, u, x, h, c, xc))
            if got != (want_s, want_u, want_c):
                rep.violate("asset-dirs", f"environment {env}, home {h}: {got}, expected {(want_s, want_u, want_c)}")
                continue
            ps = list(WellKnownAssetMetadataSource(acc, loader).load())
            names = sorted(nm for p in ps for nm in p.asset_names)
            exp = sorted(x for x in [want_s and "sys@", want_u and {"usr": "usr@"}.get(want_u.name, "xdg@" if x else "home1@")] if x)
            if s == "sys" or want_s is None:
                if names != exp:
                    rep.violate("asset-dirs-read", f"environment {env}, home {h}: assets {names}, expected {exp}")
    finally:
        if home is not None:
            os.environ["HOME"] = home
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------- config


@dataclass
class Sub:
    u: int = 1
    v: str = "v"


@dataclass
class Cfg:
    n: int = 1
    s: str = "s"
    sub: Sub = field(default_factory=Sub)
    m: dict[str, int] = field(default_factory=lambda: {"k": 1})
    o: Sub | None = None


def job_config(rep: Report) -> None:
    """Configurations of cards are those of their bases with their own changes."""
    from fairseq2.assets import AssetCard

    ov: list[Any] = [
        None, {}, {"n": 2}, {"sub": {"u": 3}}, {"sub": {"v": "${env:A}"}}, {"m": {"k": 5}}, {"m": {"l": 6}}, {"m": {"_del_": ["k"]}}, {"_set_": {"m": {"z": 1}}},
        {"o": {"u": 9}}, {"o": None}, {"s": "${env:Z:d}", "sub": {"u": 4, "v": "w"}}, {"_set_": {"sub": {"v": "only"}}}, {"n": "7"},
    ]
    conv = StandardValueConverter()
    loader = StandardAssetConfigLoader(conv, StandardConfigMerger(), StandardConfigProcessor([ReplaceEnvDirective(Env({"A": "aa"}))]))  # type: ignore[arg-type]

    def sub(x: Any) -> Any:
        if isinstance(x, dict):
            return {k: sub(v) for k, v in x.items()}
        return x.replace("${env:A}", "aa").replace("${env:Z:d}", "d") if isinstance(x, str) else x

    def merge(t: Any, o: Any) -> Any:
        if not isinstance(o, dict):
            return o
        out = {k: v for k, v in t.items() if k not in o.get("_del_", [])} if isinstance(t, dict) else {}
        for k, v in o.items():
            if k not in ("_del_", "_set_"):
                out[k] = merge(out.get(k), v)
        out.update(o.get("_set_", {}))
        return out

    for base in (Cfg(), Cfg(n=8, sub=Sub(2, "q"), o=Sub(5))):
        for d in range(1, 4):
            for seq in itertools.product(ov, repeat=d):
                card: Any = None
                for i, o in enumerate(seq):  # from the base to the card
                    md: dict[str, Any] = {"other": {"n": 99}}
                    if o is not None:
                        md["cfg"] = copy.deepcopy(o)
                    card = AssetCard(f"c{i}", md, card)
                want: Any = conv.unstructure(base)
                for o in seq:
                    if o is not None:
                        want = sub(merge(want, copy.deepcopy(o)))
                w = Cfg(int(want["n"]), want["s"], Sub(**want["sub"]), dict(want["m"]), None if want["o"] is None else Sub(**want["o"]))
                before = copy.deepcopy(base)
                rep.case((str(base), str(seq)))
                for _ in range(2):
                    got = loader.load(card, base, "cfg")
                    if got != w:
                        rep.violate("card-config", f"overrides {seq} (base first) make {base} {got}, expected {w}")
                    if base != before:
                        rep.violate("card-config-base", f"overrides {seq} change the base configuration to {base}")
                        base = before
                if all(o is None for o in seq) and loader.load(card, base, "zz") != base:
                    rep.violate("card-config-none", "a card without configuration changes it")
        for bad in ({"zz": 1}, {"_del_": 1}, {"sub": 3}, {"_set_": {"o": {"q": 1}}}):
            for above in (None, {"n": 2}):
                card = AssetCard("c1", {} if above is None else {"cfg": above}, AssetCard("c0", {"cfg": bad}))
                rep.case(("bad", str(bad), str(above)))
                try:
                    got = loader.load(card, base, "cfg")
                except AssetCardError:
                    continue
                rep.violate("card-config-bad", f"{bad} is accepted: {got}")


def check(rep: Report) -> None:
    jobs: list[Callable] = [job_names, job_files, job_dirs, job_config]
    n = 16
    for k in range(n):
        jobs.append(lambda r, k=k: job_worlds(r, k, n))
    run_jobs(rep, jobs)
    rep.cov["rule"] = "evaluations: look-ups, sources and configurations executed on the real code"
