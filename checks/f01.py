"""F01: every file system implementation does what the local file system does.

The implementations keep no state of their own, so every pair (directory tree,
operation) of the universe is every step of every history."""

from __future__ import annotations

import itertools
import os
import shutil
import tempfile
from pathlib import Path
from typing import Any, Callable

from mc import boot
from mc.memfs import DIR, State, make_memfs
from mc.par import run_jobs
from mc.report import Report, Violation

boot.init()

import fsspec  # noqa: E402
from fsspec.implementations.local import LocalFileSystem as FsspecLocal  # noqa: E402

from fairseq2.file_system import (  # noqa: E402
    FileMode,
    FileSystemRegistry,
    FSspecFileSystem,
    GlobalFileSystem,
    NativeLocalFileSystem,
    _register_filesystems,
)

LEVEL = "model_checking"

UID = 61234

NAMES = [("a", "b"), ("a[c]", "ac"), ("a*", "ab"), ("~", "a b"), (".h", "a#?"), ("é", "a%20"), ("c", "c.tmp"), ("{a,b}", "a")]

Tree = tuple  # (value of the first name, value of the second); None, "x" (file) or tuple of (child, "F" | "D")


def trees(full: bool) -> list[Tree]:
    kids = []
    for x, y in itertools.product((None, "F", "D"), repeat=2):
        kids.append(tuple((k, v) for k, v in (("c", x), ("d", y)) if v))
    opts: list[Any] = [None, "x", "y", *kids] if full else [None, "x", (), (("c", "F"),), (("c", "D"), ("d", "F"))]
    return list(itertools.product(opts, repeat=2))


def nodes(names: tuple[str, str], t: Tree) -> dict[str, bytes | None]:
    """relative path -> content (None: directory)"""
    out: dict[str, bytes | None] = {}
    for n, v in zip(names, t):
        if isinstance(v, str):
            out[n] = v.encode()
        elif v is not None:
            out[n] = None
            for k, w in v:
                out[f"{n}/{k}"] = f"z{n}".encode() if w == "F" else None
    return out


class Disk:
    """Trees in a scratch directory of the real file system."""

    def __init__(self, base: Path) -> None:
        self.base, self.root = base, base / "r"

    def build(self, n: dict[str, bytes | None]) -> None:
        for d in self.base.iterdir():
            if d.is_dir():
                shutil.rmtree(d)
            else:
                d.unlink()
        self.root.mkdir()
        for p, v in n.items():
            if v is None:
                (self.root / p).mkdir()
            else:
                (self.root / p).write_bytes(v)

    def snap(self) -> dict[str, bytes | None]:
        out: dict[str, bytes | None] = {}
        pre = len(str(self.root)) + 1
        for d, ds, fs in os.walk(self.base):
            for x in ds:
                out[os.path.join(d, x)[pre:]] = None
            for x in fs:
                p = os.path.join(d, x)
                with open(p, "rb") as f:
                    out[p[pre:]] = f.read()
        out.pop("", None)
        return out


class Mem:
    """Trees of the in-memory file system that the other checks use."""

    def __init__(self) -> None:
        self.root = Path("/r")
        self.state = State()
        self.fs = make_memfs(self.state)

    def build(self, n: dict[str, bytes | None]) -> None:
        self.state.nodes.clear()
        self.state.nodes.update({"/": DIR, "/r": DIR})
        for p, v in n.items():
            self.state.nodes[f"/r/{p}"] = DIR if v is None else bytearray(v)

    def snap(self) -> dict[str, bytes | None]:
        return {k[3:]: None if v is DIR else bytes(v) for k, v in self.state.nodes.items() if len(k) > 3}


class Remote:
    """Trees of a non-local fsspec file system."""

    def __init__(self) -> None:
        self.root = Path("/r")
        self.fs = fsspec.filesystem("memory")

    def build(self, n: dict[str, bytes | None]) -> None:
        self.fs.store.clear()
        self.fs.pseudo_dirs[:] = [""]
        self.fs.makedirs("/r")
        for p, v in n.items():
            if v is None:
                self.fs.makedirs(f"/r/{p}")
            else:
                self.fs.pipe_file(f"/r/{p}", v)

    def snap(self) -> dict[str, bytes | None]:
        out: dict[str, bytes | None] = {}
        for k, v in self.fs.store.items():
            out[k[3:]] = v.getvalue()
        for k in self.fs.pseudo_dirs:
            if len(k) > 3:
                out[k[3:]] = None
        return out


PATTERNS = ("*", "c", "*/c", "**/*", "*.tmp", "?")

# name, arguments -> whether it changes the tree
Op = tuple


def ops(names: tuple[str, str], big: bool) -> list[tuple[Op, bool]]:
    a, b = names
    paths = [a, b, f"{a}/c", f"{a}/d", f"{b}/c", "zz", "zz/c"]
    out: list[tuple[Op, bool]] = []
    for p in paths:
        out += [((n, p), False) for n in ("is_file", "is_dir", "exists", "cat", "read", "read_text", "walk", "resolve")]
        out += [(("glob", p, pat), False) for pat in PATTERNS]
        out += [((n, p), True) for n in ("remove", "make_directory", "remove_directory", "write", "append", "write_text", "append_text", "tmp", "tmp_error")]
        for q in paths:
            if q != p:
                out.append((("move", p, q), True))
                # Copying a directory into itself never ends well.
                if not q.startswith(p + "/"):
                    out.append((("copy_directory", p, q), True))
                if big or p in (a, f"{a}/c"):
                    if not q.startswith(p + "/"):
                        out.append((("copy_from_local", p, q), True))
    return out


class Boom(Exception):
    pass


def run_op(fs: Any, op: Op, mk: Callable[[str], Path], rel: Callable[[Any], str], local: Callable[[str], Path]) -> Any:
    name, p, *rest = op
    path = mk(p)
    if name in ("is_file", "is_dir", "exists"):
        return bool(getattr(fs, name)(path))
    if name == "cat":
        return fs.cat(path)
    if name == "read":
        with fs.open(path) as f:
            return f.read()
    if name == "read_text":
        with fs.open_text(path) as f:
            return f.read()
    if name in ("write", "append"):
        with fs.open(path, FileMode.WRITE if name == "write" else FileMode.APPEND) as f:
            f.write(b"w1")
            f.write(b"w2")
        return None
    if name in ("write_text", "append_text"):
        with fs.open_text(path, FileMode.WRITE if name == "write_text" else FileMode.APPEND) as f:
            f.write("é\n")
        return None
    if name == "walk":
        errors: list = []
        got = sorted((rel(d), sorted(str(f) for f in fl)) for d, fl in fs.walk_directory(path, on_error=errors.append))
        return got, bool(errors)
    if name == "glob":
        return sorted(rel(x) for x in fs.glob(path, rest[0]))
    if name == "resolve":
        return rel(fs.resolve(path))
    if name in ("tmp", "tmp_error"):
        try:
            with fs.tmp_directory(path) as d:
                if not fs.is_dir(d):
                    return "no directory"
                r = rel(d)
                if r.rpartition("/")[0] != p:
                    return f"temporary directory {r}"
                with fs.open(d.joinpath("t"), FileMode.WRITE) as f:
                    f.write(b"t")
                if name == "tmp_error":
                    raise Boom()
        except Boom:
            return "boom"
        return None
    if name == "copy_from_local":
        return fs.copy_from_local(local(p), mk(rest[0]))
    if name in ("move", "copy_directory"):
        return getattr(fs, name)(path, mk(rest[0]))
    return getattr(fs, name)(path)


def outcome(box: Any, fs: Any, op: Op, mk: Callable, rel: Callable, local: Callable) -> tuple:
    try:
        return ("ok", run_op(fs, op, mk, rel, local))
    except OSError as ex:
        return ("missing" if isinstance(ex, FileNotFoundError) else "error", type(ex).__name__)
    except Exception as ex:  # noqa: BLE001
        return ("exception", f"{type(ex).__name__}: {ex}")


def scratch(rep: Report) -> Path:
    """A directory of an unprivileged user, whose identity this process takes:
    nothing else can be changed if the code under test mistakes a path."""
    base = Path(tempfile.mkdtemp(prefix="f01."))
    (base / "t").mkdir()
    (base / "cwd").mkdir()
    if os.getuid() == 0:
        for p in (base, base / "t", base / "cwd"):
            os.chown(p, UID, UID)
        try:
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)
        except OSError:
            rep.count("privileged")
    os.chdir(base / "cwd")
    return base


def job(rep: Report, names: tuple[str, str], full: bool, part: int, parts: int) -> None:
    base = scratch(rep)
    try:
        compare(rep, names, full, part, parts, base)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def compare(rep: Report, names: tuple[str, str], full: bool, part: int, parts: int, base: Path) -> None:
    class Context:
        pass

    FileSystemRegistry._resolvers.clear()
    FileSystemRegistry._fs_cache.clear()
    _register_filesystems(Context())

    disk, mem, remote = Disk(base / "t"), Mem(), Remote()
    native, glob = NativeLocalFileSystem(), GlobalFileSystem()

    def stripped(root: Path, *prefixes: str) -> Callable[[Any], str]:
        pre = [str(root) + "/"] + [x + str(root) + "/" for x in prefixes]

        def rel(p: Any) -> str:
            s = str(p)
            for x in pre:
                if s + "/" == x:
                    return "."
                if s.startswith(x):
                    return s[len(x):]
            return f"?{s}"

        return rel

    def uri(scheme: str, root: Path) -> Callable[[str], Path]:
        return lambda p: Path(f"{scheme}://{root}/{p}")

    drel = stripped(disk.root)
    impls: list[tuple] = [
        ("FSspecFileSystem(local)", disk, FSspecFileSystem(FsspecLocal(), ""), lambda p: disk.root / p, drel),
        ("GlobalFileSystem", disk, glob, lambda p: disk.root / p, drel),
    ]
    for sch in ("file", "local"):
        r = stripped(disk.root, f"{sch}://", f"{sch}:")
        impls.append((f"GlobalFileSystem({sch}://)", disk, glob, uri(sch, disk.root), r))
    impls.append(("in-memory stand-in", mem, mem.fs, lambda p: mem.root / p, stripped(mem.root)))
    impls.append(("FSspecFileSystem(remote)", remote, FSspecFileSystem(remote.fs, "memory://"), uri("memory", remote.root),
                  stripped(remote.root, "memory://", "memory:", "memory:/")))

    def local(p: str) -> Path:
        return disk.root / p

    universe = ops(names, rep.thorough)
    for ti, t in enumerate(trees(full)):
        if ti % parts != part:
            continue
        n = nodes(names, t)
        rep.count("states")
        rep.case((names, t))
        want = {}
        for op, changes in universe:
            disk.build(n)
            r = outcome(disk, native, op, lambda p: disk.root / p, drel, local)
            want[op] = (r, disk.snap() if changes else n)
        for name, box, fs, mk, rel in impls:
            fresh = False
            for op, changes in universe:
                if not applies(name, op, n, want[op][0]):
                    continue
                if box is not disk and op[0] == "copy_from_local":
                    disk.build(n)
                if changes or not fresh:
                    box.build(n)
                got = outcome(box, fs, op, mk, rel, local)
                fresh = not changes
                w, wt = want[op]
                rep.count("transitions")
                rep.count("evaluations")
                what = f"{name}: {op} on {n}"
                key = f"{name}:{op[0]}"
                if name == "FSspecFileSystem(remote)" and op[0] in ("remove_directory", "tmp", "tmp_error") and set("[*?") & set(op[1]):
                    key = "remote-remove-pattern"
                if name == "in-memory stand-in" and w[0] != "ok" and got[0] in ("missing", "error"):
                    pass
                elif got[0] != w[0] or (w[0] == "ok" and got[1] != w[1]):
                    rep.violate(f"{key}:result", f"{what}: {got}, local file system: {w}")
                tree = box.snap()
                if tree != wt:
                    diff = {k: (tree.get(k, "absent"), wt.get(k, "absent")) for k in set(tree) | set(wt) if tree.get(k, "absent") != wt.get(k, "absent")}
                    rep.violate(f"{key}:tree", f"{what}: differs from the local file system at {diff} (path: (this, local))")
                    fresh = False
            if any((base / "cwd").iterdir()):
                rep.violate(f"{name}:escape", f"{name}: something was created in the working directory")
                shutil.rmtree(base / "cwd")
                (base / "cwd").mkdir()
                os.chdir(base / "cwd")


def applies(name: str, op: Op, n: dict, want: tuple) -> bool:
    if name == "in-memory stand-in":
        if op[0] in ("copy_from_local", "tmp", "tmp_error"):
            return False
        if op[0] == "glob":
            return op[2] in ("*", "c", "*.tmp", "?") and not set("[*?") & set(op[1])
        if op[0] == "walk":
            return op[1] in n and n[op[1]] is None
        if op[0] == "copy_directory":
            return op[1] in n and n[op[1]] is None and op[2] not in n
        return True
    if name == "FSspecFileSystem(remote)":
        # What object stores can provide: no conflicts of existing paths, and
        # no operation that the local file system refuses except for paths that
        # do not exist.
        if op[0] in ("move", "copy_directory", "copy_from_local"):
            # fsspec expands patterns in the paths of these operations.
            return want[0] == "ok" and op[2] not in n and ("/" not in op[2] or n.get(op[2].split("/")[0], b"") is None) and not set("[*?{") & set(op[1] + op[2]) and n.get(op[1], b"") is None
        if op[0] == "resolve":
            return False
        if op[0] in ("tmp", "tmp_error"):
            return op[1] in n and n[op[1]] is None
        if op[0] == "walk":
            return op[1] in n and n[op[1]] is None
        if op[0] in ("write", "append", "write_text", "append_text", "make_directory", "read", "read_text", "cat"):
            return want[0] == "ok"
        if op[0] == "glob":
            return op[2] != "**/*"
        if op[0] in ("remove", "remove_directory"):
            return want[0] == "ok"
        return True
    return True


def misc(rep: Report) -> None:
    base = scratch(rep)
    try:
        class Context:
            pass

        FileSystemRegistry._resolvers.clear()
        FileSystemRegistry._fs_cache.clear()
        _register_filesystems(Context())
        glob = GlobalFileSystem()
        for path, loc in ((Path("/x"), True), (Path("x"), True), (Path("file:///x"), True), (Path("local:///x"), True), (Path("filex/y"), True),
                          (Path("s3://b/x"), False), (Path("s3x/y"), True), (Path("/s3:/x"), True)):
            if glob.is_local_path(path) != loc:
                rep.violate("is-local", f"is_local_path({path}) is {not loc}")
            rep.count("evaluations")
            rep.count("transitions")
        # Relative paths and the home directory.
        os.environ["HOME"] = str(base / "cwd")
        native = NativeLocalFileSystem()
        for p in ("x", "./x", "../t/x", "~/x", "~", ".", "x/../y", "/a/../b"):
            for fs in (glob, FSspecFileSystem(FsspecLocal(), "")):
                if fs.resolve(Path(p)) != native.resolve(Path(p)):
                    rep.violate("resolve", f"{type(fs).__name__}.resolve({p!r}) is {fs.resolve(Path(p))}")
                rep.count("evaluations")
                rep.count("transitions")
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def check(rep: Report) -> None:
    jobs: list[Callable] = [misc]
    for i, names in enumerate(NAMES):
        full = i == 0 or rep.thorough
        parts = 16 if full else 2
        for part in range(parts):
            def j(r: Report, names: tuple = names, full: bool = full, part: int = part, parts: int = parts) -> None:
                job(r, names, full, part, parts)

            jobs.append(j)
    run_jobs(rep, jobs)
    rep.assumptions.append("fsspec's memory file system stands in for object stores; operations that create no conflicts")
    rep.cov["rule"] = "one state per directory tree; one transition per operation on a tree and implementation, compared with the local file system"
