"""A01: asset downloads are complete or fail, whatever interrupted them.

Explicit-state search over the durable states of the asset cache: from every
state each call of the real download manager is executed, fault-free and with
faults; every state the cache passes through on the way is a state that a crash
leaves behind and is searched in turn."""

from __future__ import annotations

import functools
import gzip
import hashlib
import io
import itertools
import os
import shutil
import sys
import tarfile
import tempfile
import urllib.request
import zipfile
from collections import deque
from email.message import Message
from http.client import IncompleteRead
from pathlib import Path
from typing import Any, Callable
from urllib.error import HTTPError, URLError

from mc import boot
from mc.par import run_jobs
from mc.report import Report, Violation

boot.init()

from fairseq2.assets.download_manager import AssetDownloadError, StandardAssetDownloadManager  # noqa: E402
from fairseq2.file_system import GlobalFileSystem  # noqa: E402
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER  # noqa: E402
from fairseq2.utils.uri import Uri  # noqa: E402

LEVEL = "model_checking"

UID = 61235

# Asset kinds explored in depth in the quick tier as well.
FULL = ("file", "zip", "tar-one", "tar.gz", "zip-broken")


class Crash(BaseException):
    pass


# ----------------------------------------------------------------- the server


def blob(version: int, n: int) -> bytes:
    return bytes((i * 7 + version * 31 + n) % 251 for i in range(n))


def make_zip(files: dict[str, bytes]) -> bytes:
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for k, v in files.items():
            z.writestr(zipfile.ZipInfo(k), v)
    return f.getvalue()


def make_tar(files: dict[str, Any], mode: str, perm: int = 0o644) -> bytes:
    if mode == "w:gz":
        return gzip.compress(make_tar(files, "w", perm), mtime=0)
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode=mode) as t:  # type: ignore[call-overload]
        for k, v in files.items():
            ti = tarfile.TarInfo(k)
            ti.mode = perm
            if isinstance(v, str):
                ti.type = tarfile.SYMTYPE
                ti.linkname = v
                t.addfile(ti)
            else:
                ti.size = len(v)
                t.addfile(ti, io.BytesIO(v))
    return f.getvalue()


class Asset:
    """What the server sends and what a download is expected to return."""

    def __init__(self, url: str, data: Callable[[int], bytes], want: Callable[[int], Any], disp: str | None = None,
                 length: bool = True, hostile: bool = False) -> None:
        self.url, self.data, self.want, self.disp, self.length, self.hostile = url, functools.cache(data), want, disp, length, hostile


def assets(scratch: Path) -> dict[str, Asset]:
    one = lambda v: {"m.bin": blob(v, 9000)}  # noqa: E731
    two = lambda v: {"d/a.txt": blob(v, 8500), "b.txt": blob(v, 40)}  # noqa: E731
    sub = lambda v: {"d/a.txt": blob(v, 8300), "d/b.txt": blob(v, 8200)}  # noqa: E731
    raw = lambda v: blob(v, 17000)  # noqa: E731
    H = "http://h/x/"

    def evil(tar: dict[str, Any]) -> Asset:
        return Asset(H + "e.tar", lambda v: make_tar(tar, "w"), lambda v: None, hostile=True)

    out = {
        "file": Asset(H + "model.pt", raw, lambda v: ("model.pt", raw(v))),
        "quoted": Asset(H + "my%20model.pt?x=1", raw, lambda v: ("my model.pt", raw(v))),
        "disposition": Asset(H + "get", raw, lambda v: ("t.model", raw(v)), disp='attachment; filename="t.model"'),
        "no-name": Asset("http://h/", raw, lambda v: ("asset", raw(v))),
        "no-length": Asset(H + "model.pt", raw, lambda v: ("model.pt", raw(v)), length=False),
        "empty": Asset(H + "model.pt", lambda v: b"", lambda v: ("model.pt", b"")),
        "zip-one": Asset(H + "a.zip", lambda v: make_zip(one(v)), lambda v: ("m.bin", one(v)["m.bin"])),
        "zip": Asset(H + "a.zip", lambda v: make_zip(two(v)), two),
        "zip-dir": Asset(H + "a.zip", lambda v: make_zip(sub(v)), sub),
        "zip-named-pt": Asset(H + "a.pt", lambda v: make_zip(two(v)), lambda v: ("a.pt", make_zip(two(v)))),
        "zip-disposition": Asset(H + "get", lambda v: make_zip(two(v)), two, disp="attachment; filename=a.zip"),
        "tar": Asset(H + "a.tar", lambda v: make_tar(two(v), "w"), two),
        "tar-one": Asset(H + "a.tar", lambda v: make_tar(one(v), "w"), lambda v: ("m.bin", one(v)["m.bin"])),
        "tar-read-only": Asset(H + "a.tar", lambda v: make_tar(sub(v), "w", 0o444), sub),
        "tar.gz": Asset(H + "a.tar.gz", lambda v: make_tar(two(v), "w:gz"), two),
        "tgz": Asset(H + "a.tgz", lambda v: make_tar(one(v), "w:gz"), lambda v: ("m.bin", one(v)["m.bin"])),
        "tar.bz2": Asset(H + "a.tar.bz2", lambda v: make_tar(two(v), "w:bz2"), two),
        # Broken archives never become assets.
        "zip-broken": Asset(H + "a.zip", lambda v: make_zip(two(v))[:-40], lambda v: None),
        "zip-corrupt": Asset(H + "a.zip", lambda v: make_zip(two(v)).replace(two(v)["d/a.txt"][:50], b"?" * 50), lambda v: None),
        "tar-broken": Asset(H + "a.tar", lambda v: make_tar(two(v), "w")[:5000], lambda v: None),
        "tar.gz-broken": Asset(H + "a.tar.gz", lambda v: make_tar(two(v), "w:gz")[:-30], lambda v: None),
        # Names chosen by the server.
        "evil-disposition": Asset(H + "get", raw, lambda v: None, disp='attachment; filename="../../evil"', hostile=True),
        "evil-disposition-abs": Asset(H + "get", raw, lambda v: None, disp=f'attachment; filename="{scratch}/out/evil"', hostile=True),
        "evil-disposition-up": Asset(H + "get", raw, lambda v: None, disp='attachment; filename=".."', hostile=True),
        "evil-url": Asset(H + "..%2f..%2fevil", raw, lambda v: None, hostile=True),
        "evil-zip": Asset(H + "a.zip", lambda v: make_zip({"../evil": b"x", "/evil2": b"y"}), lambda v: None, hostile=True),
        "evil-tar": evil({"../evil": b"x"}),
        "evil-tar-abs": evil({f"{scratch}/out/evil": b"x"}),
        "evil-tar-link": evil({"l": "../..", "l/evil": b"x"}),
        "evil-tar-deep": evil({"d/../../../evil": b"x"}),
    }
    return out


class Server:
    def __init__(self) -> None:
        self.asset: Asset | None = None
        self.version = 1
        self.fault: Any = None
        self.requests = 0
        self.fired = False

    def open(self, opener: Any, url: Any, data: Any = None, timeout: Any = None) -> Any:
        assert self.asset is not None
        self.requests += 1
        full = url if isinstance(url, str) else url.full_url
        if full != self.asset.url:
            raise Violation("wrong-url", f"requested {full} instead of {self.asset.url}")
        self.fired = self.fault in ("unreachable", "404")
        if self.fault == "unreachable":
            raise URLError("no route")
        if self.fault == "404":
            raise HTTPError(full, 404, "Not Found", Message(), None)
        return Response(self, full)


class Response:
    status = 200

    def __init__(self, srv: Server, url: str) -> None:
        a = srv.asset
        assert a is not None
        self.srv, self.url = srv, url
        self.data = a.data(srv.version)
        self.headers = Message()
        n = len(self.data)
        if a.length:
            self.headers["Content-Length"] = str(n)
        if a.disp:
            self.headers["Content-Disposition"] = a.disp
        f = srv.fault
        self.chunks = [self.data[i : i + 8192] for i in range(0, n, 8192)]
        if isinstance(f, tuple) and f[0] in ("short", "long"):
            srv.fired = True
            if f[0] == "short":
                self.chunks = self.chunks[: f[1]]
            else:
                self.chunks.append(b"more")
        self.k = 0

    def info(self) -> Message:
        return self.headers

    def getheader(self, k: str, default: Any = None) -> Any:
        return self.headers.get(k, default)

    def geturl(self) -> str:
        return self.url

    def read(self, n: int = -1) -> bytes:
        f = self.srv.fault
        if isinstance(f, tuple) and f[0] in ("reset", "incomplete", "interrupt") and self.k >= f[1]:
            self.srv.fired = True
            if f[0] == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if f[0] == "incomplete":
                raise IncompleteRead(b"", 10)
            raise KeyboardInterrupt()
        if self.k >= len(self.chunks):
            return b""
        out = self.chunks[self.k]
        if n < 0:
            out = b"".join(self.chunks[self.k :])
            self.k = len(self.chunks)
        elif n < len(out):
            self.chunks[self.k] = out[n:]
            out = out[:n]
        else:
            self.k += 1
        return out

    def close(self) -> None:
        pass

    def __enter__(self) -> Any:
        return self

    def __exit__(self, *a: Any) -> None:
        pass


# ------------------------------------------------------------ durable states

Snap = tuple  # sorted (path, mode or None, content or None)


def snap(root: Path) -> Snap:
    out = []
    pre = len(str(root)) + 1
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out.append((p[pre:], "link" if os.path.islink(p) else "dir", None))
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out.append((p[pre:], "link", os.readlink(p)))
                continue
            with open(p, "rb") as f:
                out.append((p[pre:], os.stat(p).st_mode & 0o777, f.read()))
    return tuple(sorted(out, key=lambda e: e[0]))


def restore(root: Path, s: Snap) -> None:
    for e in root.iterdir():
        if e.is_dir() and not e.is_symlink():
            shutil.rmtree(e)
        else:
            e.unlink()
    for p, mode, data in s:
        q = root / p
        if mode == "dir":
            q.mkdir()
        elif mode == "link":
            q.symlink_to(data)
        else:
            q.write_bytes(data)
            q.chmod(mode)


def brief(s: Snap) -> str:
    return "{" + ", ".join(f"{p}{'/' if m == 'dir' else f' [{len(d)}]' if m != 'link' else ' -> '}" for p, m, d in s) + "}"


def observe(path: Path) -> Any:
    if path.is_dir():
        out = {}
        for p, m, d in snap(path):
            if m != "dir":
                out[p] = d
        return out
    return (path.name, path.read_bytes())


EFFECTS = {"mkdir", "rename", "replace", "rmdir", "unlink", "remove", "open", "write", "close", "flush", "__exit__", "truncate",
           "symlink", "link", "chmod", "mkdirs", "copyfileobj", "sendfile", "fcopyfile", "copy_file_range", "seek", "__del__"}


class Rig:
    def __init__(self, base: Path) -> None:
        self.base = base
        self.cache = base / "t" / "cache"
        self.cache.mkdir()
        self.outer = base / "t"
        self.server = Server()
        self.events: list[str] = []
        self.fail_at: int | None = None
        self.fail_with: Any = None
        self.nevents = 0
        self.armed = False
        srv = self.server

        def op(opener: Any, url: Any, data: Any = None, timeout: Any = None) -> Any:
            return srv.open(opener, url, data, timeout)

        urllib.request.OpenerDirector.open = op  # type: ignore[method-assign]
        sys.addaudithook(self.audit)

    def audit(self, event: str, args: tuple) -> None:
        if not self.armed:
            return
        if event == "open":
            p, mode, flags = args
            if not isinstance(p, (str, bytes, os.PathLike)) or not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
        elif event not in ("os.mkdir", "os.rename", "os.remove", "os.rmdir"):
            return
        n = self.nevents
        self.nevents += 1
        if n == self.fail_at:
            self.armed = False
            raise self.fail_with

    def call(self, asset: Asset, op: str, collect: set | None, *, fail_at: int | None = None, fail_with: Any = None, fault: Any = None) -> tuple:
        """Returns (outcome, number of effects)."""
        self.server.asset = asset
        self.server.fault = fault
        self.server.fired = False
        m = StandardAssetDownloadManager(self.cache, GlobalFileSystem(), NOOP_PROGRESS_REPORTER, NOOP_PROGRESS_REPORTER)
        names = iter(f"n{i}" for i in range(10_000))
        saved = tempfile._get_candidate_names
        tempfile._get_candidate_names = lambda: names  # type: ignore[attr-defined,assignment]
        depth = 0

        def prof(frame: Any, event: str, arg: Any) -> None:
            nonlocal depth
            if event == "c_return" and getattr(arg, "__name__", "") in EFFECTS and not depth:
                depth = 1
                sys.setprofile(None)
                collect.add(snap(self.cache))  # type: ignore[union-attr]
                sys.setprofile(prof)
                depth = 0

        self.nevents, self.fail_at, self.fail_with, self.armed = 0, fail_at, fail_with, True
        path: Any = None
        try:
            if collect is not None:
                sys.setprofile(prof)
            try:
                path = m.download_model(Uri.maybe_parse(asset.url), force=op == "force", local_only=op == "local")  # type: ignore[arg-type]
            finally:
                sys.setprofile(None)
                self.armed = False
                tempfile._get_candidate_names = saved  # type: ignore[attr-defined]
        except AssetDownloadError:
            out: tuple = ("error", None)
        except KeyboardInterrupt:
            out = ("interrupted", None)
        except Violation:
            raise
        except Exception as ex:  # noqa: BLE001
            out = ("exception", f"{type(ex).__name__}: {ex}")
        else:
            out = ("ok", path)
        return out, self.nevents


def enter(rep: Report) -> Path:
    base = Path(tempfile.mkdtemp(prefix="a01."))
    for n in ("t", "out"):
        (base / n).mkdir()
    if os.getuid() == 0:
        for p in (base, base / "t", base / "out"):
            os.chown(p, UID, UID)
        try:
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)
        except OSError:
            rep.count("privileged")
    os.umask(0o022)
    os.chdir(base / "out")
    return base


def job(rep: Report, name: str) -> None:
    base = enter(rep)
    try:
        search(rep, name, base)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def search(rep: Report, name: str, base: Path) -> None:
    rig = Rig(base)
    asset = assets(base)[name]
    bad = asset.want(1) is None
    full = rep.thorough or name in FULL
    depth_max = 12 if rep.thorough else 4 if full else 2
    fault_depth = 3 if rep.thorough else 1 if full else 0

    # (cache, newest version the server has, was a call interrupted since the last success, version cached by the last success)
    init = ((), 1)
    seen: dict[tuple, int] = {init: 0}
    queue: deque = deque([(init, 0, "an empty cache")])

    def escaped(what: str) -> None:
        o = [p for p, _, _ in snap(base / "t") if not (p == "cache" or p.startswith("cache/"))] + [p for p, _, _ in snap(base / "out")]
        if o:
            raise Violation("escape", f"{what}: wrote outside of the cache: {o}")

    def judge(what: str, op: str, version: int, out: tuple, must: bool) -> None:
        escaped(what)
        kind, val = out
        if kind == "exception":
            raise Violation("exception", f"{what}: {val}")
        if kind == "ok":
            if rig.cache not in Path(val).parents:
                raise Violation("path", f"{what}: returned {val}")
            if asset.hostile:
                return
            got = observe(val)
            if bad:
                raise Violation("broken-archive", f"{what}: returned {describe(got)}")
            allowed = [version] if op == "force" else list(range(1, version + 1))
            if got not in [asset.want(v) for v in allowed]:
                raise Violation("content", f"{what}: returned {describe(got)}, expected {' or '.join(describe(asset.want(v)) for v in allowed)}")
        elif kind == "error" and must and not bad and not asset.hostile:
            raise Violation("refused", f"{what}: AssetDownloadError")

    while queue:
        (state, version), depth, how = queue.popleft()
        rep.count("states")
        for op in ("get", "force", "local"):
            for ver in (version,) if op != "force" else (version, version + 1):
                if ver > 2:
                    continue
                rig.server.version = ver
                what = f"{name}: {op} (server version {ver}) after {how}"
                restore(rig.cache, state)
                mids: set = set()
                try:
                    out, n = rig.call(asset, op, mids)
                    judge(what, op, ver, out, op != "local")
                    done = snap(rig.cache)
                    if out[0] == "ok" and not asset.hostile:
                        # The same again, without the network.
                        rig.server.fault = None
                        req = rig.server.requests
                        for again in ("local", "get"):
                            got, _ = rig.call(asset, again, None, fault="unreachable")
                            judge(f"{what}, then {again}", again, ver, got, True)
                            if got[1] != out[1]:
                                raise Violation("path-changes", f"{what}: returned {out[1]}, then {got[1]}")
                        if rig.server.requests != req:
                            raise Violation("not-cached", f"{what}: requested again")
                except Violation as v:
                    rep.violate(v.key, v.msg)
                    continue
                rep.count("transitions")
                rep.count("evaluations")
                nexts = [(done, f"{op} after {how}")]
                nexts += [(s, f"crash in {op} at {brief(s)} after {how}") for s in mids]
                # Faults: what is left behind is a state as well.
                faults: list[dict] = []
                if op != "local" and depth <= fault_depth:
                    reads = (len(asset.data(ver)) + 8191) // 8192 + 1
                    fl: list[Any] = ["unreachable", "404"]
                    for k in range(reads):
                        fl += [("reset", k), ("incomplete", k), ("interrupt", k)]
                        if asset.length and k * 8192 < len(asset.data(ver)):
                            fl.append(("short", k))
                    if asset.length:
                        fl.append(("long", 0))
                    faults += [dict(fault=f) for f in fl]
                    for k in range(n):
                        faults.append(dict(fail_at=k, fail_with=OSError(28, "No space left on device")))
                        faults.append(dict(fail_at=k, fail_with=KeyboardInterrupt()))
                for f in faults:
                    restore(rig.cache, state)
                    fw = f"{what}, fault {f}"
                    try:
                        out, _ = rig.call(asset, op, None, **f)
                        if out[0] == "ok" and "fault" in f and rig.server.fired:
                            raise Violation("fault-ignored", f"{fw}: succeeded")
                        judge(fw, op, ver, out, False)
                    except Violation as v:
                        rep.violate(v.key, v.msg)
                        continue
                    rep.count("transitions")
                    rep.count("evaluations")
                    nexts.append((snap(rig.cache), f"{op} with fault {f} after {how}"))
                if depth < depth_max:
                    for s, h in nexts:
                        k2 = (s, ver)
                        if k2 not in seen:
                            seen[k2] = depth + 1
                            queue.append((k2, depth + 1, h))
        rep.case((name, hashlib.sha256(repr(state).encode()).hexdigest(), version))
    if not rep.violations and max(seen.values()) < depth_max:
        rep.count("closed")


RELATED = ("model.pt", "model.pt?v=1", "model.pt?v=2", "model.pt?v=1&w=2", "Model.pt", "model.pt%3Fv=1", "a/model.pt", "a/model.pt/")


def related(rep: Report) -> None:
    """Calls for assets with similar addresses that share one cache never get in each other's way."""
    base = enter(rep)
    try:
        rig = Rig(base)
        items = []
        for scheme in ("http://h/", "https://h/", "http://i/"):
            for k, u in enumerate(RELATED if scheme == "http://h/" else RELATED[:2]):
                n = 100 + len(items)
                items.append(Asset(scheme + u, lambda v, n=n: blob(v, n), lambda v, n=n: blob(v, n)))
        pairs = itertools.permutations(range(len(items)), 2)
        for a, b in pairs:
            for ops in itertools.product(("get", "force", "local"), repeat=4 if rep.thorough else 3):
                restore(rig.cache, ())
                cached: set[int] = set()
                what = ""
                # The last calls are to both of them.
                for x, op in zip((a, b, a, b), ops):
                    what += f"{op} {items[x].url}; "
                    out, _ = rig.call(items[x], op, None)
                    rep.count("transitions")
                    if op == "local" and x not in cached:
                        if out[0] != "error":
                            rep.violate("related-local", f"{what}{out}, but it is not cached")
                        continue
                    if out[0] != "ok":
                        rep.violate("related-refused", f"{what}{out}")
                        continue
                    cached.add(x)
                    got = Path(out[1]).read_bytes()
                    if got != items[x].want(1):
                        rep.violate("related-content", f"{what}{len(got)} bytes instead of {100 + x}: another asset is returned")
                rep.count("states")
                rep.count("evaluations")
            rep.case(("related", a, b))
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def describe(x: Any) -> str:
    def one(b: bytes) -> str:
        for v in (1, 2):
            if b and b == blob(v, len(b)):
                return f"{len(b)} bytes of version {v}"
        return f"{len(b)} bytes"

    if isinstance(x, tuple):
        return f"file {x[0]} ({one(x[1])})"
    return "{" + ", ".join(f"{k}: {one(v) if isinstance(v, bytes) else v}" for k, v in sorted(x.items())) + "}"


def check(rep: Report) -> None:
    jobs: list[Callable] = [related]
    for name in assets(Path("/s")):
        def j(r: Report, name: str = name) -> None:
            job(r, name)

        jobs.append(j)
    run_jobs(rep, jobs)
    rep.assumptions.append("file system effects persist in order; one process at a time downloads an asset")
    rep.cov["rule"] = "states: durable states of the cache per asset kind; transitions: calls executed from a state"
