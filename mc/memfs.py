"""In-memory POSIX-like file system with an operation log and crash injection.

Every externally visible effect is one *op*, announced to `hook(kind, path)`
before it happens; the hook may yield to the scheduler, raise an injected
OSError, or raise `Crash` (process death; nothing after it has any effect).
Writes are visible piecewise: `open(WRITE)` truncates/creates the file at once,
every write() appends, so a crash leaves any prefix of the content.
"""

from __future__ import annotations

import fnmatch
import io
import posixpath
from contextlib import contextmanager
from errno import EEXIST, EINVAL, EISDIR, ENOENT, ENOTDIR, ENOTEMPTY
from os import strerror
from pathlib import Path
from typing import Any, Callable

DIR = object()


class Crash(BaseException):
    """The process dies here."""


def _err(code: int, path: str) -> OSError:
    return OSError(code, strerror(code), path)


class State:
    """Durable content: path -> bytes | DIR."""

    def __init__(self) -> None:
        self.nodes: dict[str, Any] = {"/": DIR}
        self.frozen = False

    def copy(self) -> "State":
        s = State()
        s.nodes = {
            k: (v if v is DIR else bytearray(v)) for k, v in self.nodes.items()
        }
        return s

    def key(self) -> tuple:
        return tuple(
            sorted((k, "D" if v is DIR else bytes(v)) for k, v in self.nodes.items())
        )

    def listing(self) -> list[str]:
        return sorted(
            k + ("/" if v is DIR else f" [{len(v)}]") for k, v in self.nodes.items()
        )

    def children(self, p: str) -> list[str]:
        pre = p.rstrip("/") + "/"
        return sorted(k for k in self.nodes if k.startswith(pre) and "/" not in k[len(pre):] and k != pre)


class _File(io.RawIOBase):
    def __init__(self, fs: Any, path: str, buf: bytearray):
        self.fs = fs
        self.path = path
        self.buf = buf
        self.chunk: list[bytes] = []

    def writable(self) -> bool:
        return True

    def write(self, b) -> int:
        data = bytes(b)
        self.chunk.append(data)
        return len(data)

    def _spill(self) -> None:
        data = b"".join(self.chunk)
        self.chunk = []
        if data:
            st = self.fs.state
            half = len(data) // 2
            self.fs.op("write", self.path)
            if not st.frozen:
                self.buf.extend(data[:half])
            self.fs.op("write2", self.path)
            if not st.frozen:
                self.buf.extend(data[half:])

    def close(self) -> None:
        if not self.closed:
            try:
                self._spill()
            finally:
                super().close()


def make_memfs(state: State, hook: Callable[[str, str], None] | None = None, local: bool = True):
    from fairseq2.file_system import FileMode, FileSystem

    class MemFS(FileSystem):
        def __init__(self) -> None:
            self.state = state
            self.hook = hook
            self.nops = 0

        def op(self, kind: str, path: str) -> None:
            self.nops += 1
            if self.hook is not None:
                self.hook(kind, path)

        # helpers
        def _p(self, path: Any) -> str:
            return posixpath.normpath(str(path))

        def _node(self, p: str) -> Any:
            return self.state.nodes.get(p)

        def _need_parent(self, p: str) -> None:
            d = posixpath.dirname(p)
            n = self._node(d)
            if n is None:
                raise FileNotFoundError(ENOENT, strerror(ENOENT), p)
            if n is not DIR:
                raise NotADirectoryError(ENOTDIR, strerror(ENOTDIR), p)

        def is_file(self, path):
            p = self._p(path)
            self.op("stat", p)
            n = self._node(p)
            return n is not None and n is not DIR

        def is_dir(self, path):
            p = self._p(path)
            self.op("stat", p)
            return self._node(p) is DIR

        def exists(self, path):
            p = self._p(path)
            self.op("stat", p)
            return self._node(p) is not None

        def open(self, path, mode=FileMode.READ):
            p = self._p(path)
            if mode == FileMode.READ:
                self.op("read", p)
                n = self._node(p)
                if n is None:
                    raise FileNotFoundError(ENOENT, strerror(ENOENT), p)
                if n is DIR:
                    raise IsADirectoryError(EISDIR, strerror(EISDIR), p)
                return io.BytesIO(bytes(n))
            self.op("create", p)
            n = self._node(p)
            if n is DIR:
                raise IsADirectoryError(EISDIR, strerror(EISDIR), p)
            self._need_parent(p)
            if n is None or mode == FileMode.WRITE:
                n = bytearray()
                if not self.state.frozen:
                    self.state.nodes[p] = n
            return _File(self, p, n)

        def open_text(self, path, mode=FileMode.READ):
            fp = self.open(path, mode)
            return io.TextIOWrapper(fp, encoding="utf-8", newline="")

        def cat(self, path):
            with self.open(path) as fp:
                return fp.read()

        def move(self, old_path, new_path):
            a, b = self._p(old_path), self._p(new_path)
            self.op("move", f"{a} -> {b}")
            if self.state.frozen:
                return
            nodes = self.state.nodes
            if a not in nodes:
                raise FileNotFoundError(ENOENT, strerror(ENOENT), a)
            if b.startswith(a + "/") and nodes[a] is DIR:
                raise _err(EINVAL, b)
            self._need_parent(b)
            if nodes.get(b) is DIR:
                if nodes[a] is not DIR:
                    raise IsADirectoryError(EISDIR, strerror(EISDIR), b)
                if self.state.children(b):
                    raise _err(ENOTEMPTY, b)
            elif b in nodes and nodes[a] is DIR:
                raise NotADirectoryError(ENOTDIR, strerror(ENOTDIR), b)
            sub = [k for k in nodes if k == a or k.startswith(a + "/")]
            moved = {b + k[len(a):]: nodes.pop(k) for k in sub}
            nodes.update(moved)

        def remove(self, path):
            p = self._p(path)
            self.op("unlink", p)
            n = self._node(p)
            if n is None:
                raise FileNotFoundError(ENOENT, strerror(ENOENT), p)
            if n is DIR:
                raise IsADirectoryError(EISDIR, strerror(EISDIR), p)
            if not self.state.frozen:
                del self.state.nodes[p]

        def make_directory(self, path):
            p = self._p(path)
            parts = [p]
            while parts[-1] != "/":
                parts.append(posixpath.dirname(parts[-1]))
            for d in reversed(parts):
                n = self._node(d)
                if n is DIR:
                    continue
                if n is not None:
                    raise FileExistsError(EEXIST, strerror(EEXIST), d)
                self.op("mkdir", d)
                if not self.state.frozen:
                    self.state.nodes.setdefault(d, DIR)

        def copy_directory(self, source_path, target_path):
            a, b = self._p(source_path), self._p(target_path)
            if self._node(a) is not DIR:
                raise FileNotFoundError(ENOENT, strerror(ENOENT), a)
            self.make_directory(Path(b))
            for k in sorted(self.state.nodes):
                if k.startswith(a + "/"):
                    t = b + k[len(a):]
                    if self.state.nodes[k] is DIR:
                        self.make_directory(Path(t))
                    else:
                        data = bytes(self.state.nodes[k])
                        with self.open(Path(t), FileMode.WRITE) as fp:
                            fp.write(data)

        def copy_from_local(self, local_path, remote_path):
            raise NotImplementedError

        def remove_directory(self, path):
            p = self._p(path)
            n = self._node(p)
            if n is None:
                self.op("rmtree", p)
                raise FileNotFoundError(ENOENT, strerror(ENOENT), p)
            if n is not DIR:
                raise NotADirectoryError(ENOTDIR, strerror(ENOTDIR), p)
            for c in self.state.children(p):
                if self.state.nodes.get(c) is DIR:
                    self.remove_directory(Path(c))
                else:
                    self.op("unlink", c)
                    if not self.state.frozen:
                        self.state.nodes.pop(c, None)
            self.op("rmdir", p)
            if not self.state.frozen:
                self.state.nodes.pop(p, None)

        def glob(self, path, pattern):
            p = self._p(path)
            self.op("list", p)
            out = [
                Path(c)
                for c in self.state.children(p)
                if fnmatch.fnmatchcase(posixpath.basename(c), pattern)
            ]
            return iter(out)

        def walk_directory(self, path, *, on_error):
            p = self._p(path)
            self.op("list", p)
            stack = [p]
            while stack:
                d = stack.pop()
                files = []
                for c in self.state.children(d):
                    if self.state.nodes[c] is DIR:
                        stack.append(c)
                    else:
                        files.append(posixpath.basename(c))
                yield d, files

        @contextmanager
        def tmp_directory(self, base_dir):
            n = 0
            while self._node(self._p(base_dir) + f"/tmp{n}") is not None:
                n += 1
            p = Path(self._p(base_dir) + f"/tmp{n}")
            self.make_directory(p)
            try:
                yield p
            finally:
                if not self.state.frozen:
                    self.remove_directory(p)

        def resolve(self, path):
            return Path(self._p(path))

        @property
        def is_local(self):
            return local

    return MemFS()
