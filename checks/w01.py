"""W01: data parallel wrappers are equivalent to the module they wrap.

Every sequence of operations (backward passes with and without synchronisation,
clipping, optimizer steps, forward passes, summoning, saving and restoring) up to
a length is executed on real DDP, FSDP1 and FSDP2 modules in real processes and
compared with one process that has the plain module and all data."""

from __future__ import annotations

import itertools
import traceback
from contextlib import nullcontext
from typing import Any, Callable, Iterator

from mc import boot
from mc.gloo import run_gloo
from mc.par import run_jobs
from mc.report import Report, Violation

boot.init()

import torch  # noqa: E402
from torch import Tensor, nn  # noqa: E402
from torch.nn import Module, Parameter  # noqa: E402

LEVEL = "model_checking"

# ----------------------------------------------------------------- modules


class Scale(Module):
    """Has a parameter, a persistent and a non-persistent buffer."""

    def __init__(self, device: Any = None) -> None:
        super().__init__()
        self.p = Parameter(torch.empty(4, device=device))
        self.register_buffer("kept", torch.empty(4, device=device))
        self.register_buffer("table", torch.empty(4, device=device), persistent=False)
        if device is None or device.type != "meta":
            self.reset_parameters()

    def reset_parameters(self) -> None:
        nn.init.uniform_(self.p)
        nn.init.uniform_(self.kept)
        self.reset_non_persistent_buffers()

    def reset_non_persistent_buffers(self) -> None:
        self.table.copy_(torch.tensor([0.5, 1.5, -1.0, 2.0]))

    def forward(self, x: Tensor) -> Tensor:
        return x * (self.p * self.kept + self.table)


class Mlp(Module):
    def __init__(self, device: Any = None) -> None:
        super().__init__()
        self.layers = nn.ModuleList([nn.Linear(3, 5, device=device), nn.Linear(5, 4, device=device)])
        self.head = nn.Linear(4, 1, bias=False, device=device)

    def forward(self, x: Tensor) -> Tensor:
        for l in self.layers:
            x = torch.tanh(l(x))
        return self.head(x)


class Tied(Module):
    def __init__(self, device: Any = None) -> None:
        super().__init__()
        self.embed = nn.Linear(3, 5, bias=False, device=device)
        self.layers = nn.ModuleList([nn.Linear(5, 3, device=device)])
        self.out = nn.Linear(3, 5, bias=False, device=device)
        self.out.weight = self.embed.weight

    def forward(self, x: Tensor) -> Tensor:
        x = self.embed(x)
        for l in self.layers:
            x = torch.tanh(l(x))
        return self.out(x)


class Frozen(Mlp):
    def __init__(self, device: Any = None) -> None:
        super().__init__(device)
        self.layers[0].requires_grad_(False)
        self.head.requires_grad_(False)


class Unused(Mlp):
    def __init__(self, device: Any = None) -> None:
        super().__init__(device)
        self.layers.append(nn.Linear(4, 4, device=device))

    def forward(self, x: Tensor) -> Tensor:
        for l in list(self.layers)[:2]:
            x = torch.tanh(l(x))
        return self.head(x)


class Buffers(Module):
    def __init__(self, device: Any = None) -> None:
        super().__init__()
        self.layers = nn.ModuleList([nn.Linear(3, 4, device=device), Scale(device)])
        self.head = nn.Linear(4, 2, device=device)

    def forward(self, x: Tensor) -> Tensor:
        for l in self.layers:
            x = torch.tanh(l(x))
        return self.head(x)


class Norm(Module):
    def __init__(self, device: Any = None) -> None:
        super().__init__()
        self.layers = nn.ModuleList([nn.Sequential(nn.Linear(3, 5, device=device), nn.BatchNorm1d(5, device=device))])
        self.head = nn.Linear(5, 1, device=device)

    def forward(self, x: Tensor) -> Tensor:
        for l in self.layers:
            x = torch.tanh(l(x))
        return self.head(x)


class Tiny(Module):
    """Fewer rows than processes."""

    def __init__(self, device: Any = None) -> None:
        super().__init__()
        self.layers = nn.ModuleList([nn.Linear(3, 1, device=device)])
        self.head = nn.Linear(1, 2, device=device)

    def forward(self, x: Tensor) -> Tensor:
        for l in self.layers:
            x = torch.tanh(l(x))
        return self.head(x)


MODULES: dict[str, Callable[..., Module]] = {
    c.__name__.lower(): c for c in (Mlp, Tied, Frozen, Unused, Buffers, Norm, Tiny)
}


def build(name: str, seed: int, meta: bool = False) -> Module:
    torch.manual_seed(seed)
    if meta:
        m = MODULES[name](torch.device("meta"))
    else:
        m = MODULES[name]()
        with torch.no_grad():
            for mod in m.modules():
                if isinstance(mod, nn.BatchNorm1d):
                    mod.running_mean.uniform_(-1, 1)
                    mod.running_var.uniform_(0.5, 2)
                    nn.init.uniform_(mod.weight, 0.5, 2)
                    nn.init.uniform_(mod.bias)
    if name == "norm":
        m.eval()  # SyncBatchNorm does not train on CPU
    return m


def data(i: int, rank: int) -> Tensor:
    return torch.tensor([[(7 * i + 3 * rank + 5 * j + k * k) % 11 / 5.0 - 1 for k in range(3)] for j in range(2)])


def loss_of(y: Tensor, i: int, rank: int) -> Tensor:
    return ((y - (i % 3) - 0.5 * rank) ** 2).mean()


def sgd(params: Any) -> Any:
    return torch.optim.SGD(params, lr=0.05, momentum=0.9)


# ---------------------------------------------------------------- reference


class Reference:
    """The plain module in one process with the data of all."""

    def __init__(self, name: str, world: int) -> None:
        self.m = build(name, 0)
        self.opt = sgd([p for p in self.m.parameters() if p.requires_grad])
        self.world = world

    def back(self, i: int) -> None:
        for r in range(self.world):
            (loss_of(self.m(data(i, r)), i, r) / self.world).backward()

    def norm(self) -> Tensor:
        g = [p.grad for p in self.m.parameters() if p.grad is not None]
        return torch.sqrt(sum((x.double() ** 2).sum() for x in g)) if g else torch.zeros(())  # type: ignore[call-overload]


# ------------------------------------------------------------------ wrapped


def wrap(kind: str, name: str, m: Module, gangs: Any, gran: str, sync: bool, mp: Any = None) -> Module:
    if kind == "ddp":
        from fairseq2.nn.ddp import to_ddp

        return to_ddp(m, gangs, find_unused_parameters=name == "unused")
    from fairseq2.models.utils.fsdp import apply_layerwise_fsdp
    from fairseq2.nn.fsdp import to_fsdp

    def applier(mod: Any, wrapper: Any) -> Any:
        if gran == "layer":
            apply_layerwise_fsdp(mod.layers, wrapper)
        elif gran == "model":
            return wrapper(mod, reshard_after_forward=False)
        elif gran == "model-reshard":
            return wrapper(mod, reshard_after_forward=True)
        return mod

    return to_fsdp(m, gangs, applier, version="v1" if kind == "fsdp1" else "v2", broadcast_state=sync, mixed_precision_dtype=mp,
                   fp32_reduce=True, reshard_after_forward=gran != "keep")


def full(t: Any) -> Tensor:
    from torch.distributed.tensor import DTensor

    return t.full_tensor() if isinstance(t, DTensor) else t


class Boom(Exception):
    pass


class Rig:
    def __init__(self, cfg: dict, name: str, gangs: Any, meta: bool) -> None:
        from fairseq2.nn.data_parallel import get_data_parallel_facade

        self.cfg, self.name, self.gangs = cfg, name, gangs
        self.rank, self.world = gangs.dp.rank, gangs.dp.size
        self.kind = cfg["kind"]
        self.tol = 1e-5 if cfg.get("mp") is None else 4e-2
        self.ref = Reference(name, self.world)
        sync = self.kind != "fsdp1"  # which synchronises on GPUs only
        m = build(name, self.rank if sync else 0, meta and self.rank > 0)
        self.m = wrap(self.kind, name, m, gangs, cfg["gran"], sync, cfg.get("mp"))
        self.f = get_data_parallel_facade(self.m)
        self.opt = sgd([p for p in self.m.parameters() if p.requires_grad])
        self.pending = False  # gradients that are not synchronised
        self.grads = False
        self.i = 0
        self.saved = self.save()

    def save(self) -> tuple[dict, dict]:
        def copy(d: Any) -> dict:
            return {k: v.detach().clone() for k, v in d.items()}

        return copy(self.f.state_dict()), copy(self.ref.m.state_dict())

    def close(self, what: str, got: Any, want: Any) -> None:
        if got is None or want is None:
            if got is not want and not (got is None and not want.any()) and not (want is None and not got.any()):
                raise Violation("grad" if "grad" in what else "value", f"{what} is {got}, expected {want}")
            return
        if got.shape != want.shape or not torch.allclose(got.detach().double(), want.detach().double(), rtol=self.tol, atol=self.tol):
            raise Violation(what.split()[0], f"{what} is {got.tolist()}, expected {want.tolist()}")

    def do(self, op: str) -> None:
        self.i += 1
        i, r, m, ref = self.i, self.rank, self.m, self.ref
        if op == "back":
            loss_of(m(data(i, r)), i, r).backward()
            ref.back(i)
            self.pending, self.grads = False, True
        elif op == "nosync":
            with self.f.no_sync():
                loss_of(m(data(i, r)), i, r).backward()
            ref.back(i)
            self.pending = True
        elif op == "clip":
            want = ref.norm()
            got = self.f.clip_grad_norm(0.3)
            self.close("norm of all gradients", full(got), want)
            nn.utils.clip_grad_norm_([p for p in ref.m.parameters() if p.grad is not None], 0.3)
        elif op == "step":
            self.opt.step()
            self.opt.zero_grad(set_to_none=True)
            ref.opt.step()
            ref.opt.zero_grad(set_to_none=True)
            self.grads = False
        elif op == "save":
            self.saved = self.save()
            self.check_shard(*self.saved)
        elif op == "load":
            if self.kind == "ddp" or i % 2:
                self.f.load_state_dict(dict(self.saved[0]))
            else:
                from fairseq2.nn.fsdp import fsdp_load_local_state_dict

                fsdp_load_local_state_dict(m, dict(self.saved[0]))
            ref.m.load_state_dict(self.saved[1])
        elif op == "forward":
            with torch.no_grad():
                self.close("output of forward()", m(data(i, r)), ref.m(data(i, r)))
        elif op == "summon":
            with torch.no_grad():
                with self.f.summon_full_parameters():
                    if r == 0:  # locally, and not in lock step
                        for k in range(2):
                            self.close("output in summon_full_parameters()", m(data(i + k, r).to(self.cfg["mp"] or torch.float32)).float(), ref.m(data(i + k, r)))
                    self.check_params({n: p for n, p in m.named_parameters()}, "summoned ")
        elif op == "nosync-raise":
            try:
                with self.f.no_sync():
                    raise Boom()
            except Boom:
                pass
            else:
                raise Violation("nosync-raise", "no_sync() swallows exceptions")
        elif op == "summon-raise":
            try:
                with self.f.summon_full_parameters():
                    raise Boom()
            except Boom:
                pass
            else:
                raise Violation("summon-raise", "summon_full_parameters() swallows exceptions")

    @staticmethod
    def clean(n: str) -> str:
        return n.replace("_fsdp_wrapped_module.", "").replace("_checkpoint_wrapped_module.", "").removeprefix("module.")

    def check_params(self, params: dict, what: str) -> None:
        want = dict(self.ref.m.named_parameters())
        got = {self.clean(n): p for n, p in params.items()}
        if set(got) != set(want):
            raise Violation("names", f"{what}parameters are {sorted(got)} instead of {sorted(want)}")
        for n in want:
            self.close(f"{what}parameter {n}", got[n].float(), want[n])

    def check_shard(self, got: dict, want: dict) -> None:
        if set(got) != set(want):
            raise Violation("state-keys", f"the state has {sorted(got)} instead of {sorted(want)}")
        params = {k for k, _ in self.ref.m.named_parameters(remove_duplicate=False)}
        for k, w in want.items():
            if self.kind != "ddp" and k in params:
                size, rank = self.gangs.sdp.size, self.gangs.sdp.rank
                parts = torch.chunk(w, size, dim=0)
                w = parts[rank] if rank < len(parts) else w[:0]
                if w.numel() == 0 and got[k].numel() == 0:
                    continue
            self.close(f"state of {k}", got[k], w)

    def finish(self) -> None:
        """Everything agrees with the reference at the end of a sequence."""
        if self.pending:
            self.do("back")
        ref = dict(self.ref.m.named_parameters())
        if self.kind != "fsdp1":
            if self.kind == "ddp":
                self.check_params(dict(self.m.named_parameters()), "")
            params = {self.clean(n): p for n, p in self.m.named_parameters()}
            for n, w in ref.items():
                self.close(f"gradient of {n}", None if params[n].grad is None else full(params[n].grad), w.grad)
        elif self.grads:
            # Gradients are sharded flat tensors: observe them through a step.
            self.do("step")
        self.do("save")
        self.do("summon")
        bufs = {self.clean(n): b for n, b in self.m.named_buffers()}
        for n, w in self.ref.m.named_buffers():
            self.close(f"buffer {n}", bufs[n].float(), w.float())


def sequences(cfg: dict, depth: int) -> Iterator[tuple[str, ...]]:
    """All sequences of allowed operations, shortest first."""

    def allowed(seq: tuple) -> list[str]:
        pend = grads = False
        for o in seq:
            if o == "back":
                pend, grads = False, True
            elif o == "nosync":
                pend = True
            elif o == "step":
                grads = False
        out = ["back", "nosync", "nosync-raise"]
        if not pend:
            out += ["step", "save", "load"]
            # A forward pass without a backward pass leaves parameters unsharded.
            if cfg["kind"] == "ddp":
                out.append("forward")
            if grads:
                out.append("clip")
            if cfg["kind"] != "fsdp1" or not grads:
                out += ["summon", "summon-raise"]
        return out

    layer: list[tuple] = [()]
    for _ in range(depth + 1):
        nxt = []
        for s in layer:
            yield s
            nxt += [s + (o,) for o in allowed(s)]
        layer = nxt


def program(cfg: dict, names: list[str], depth: int) -> Callable:
    def fn(rank: int, root: Any) -> dict:
        from fairseq2.gang import GangError, create_fsdp_gangs, create_parallel_gangs

        torch.set_num_threads(1)
        gangs = create_parallel_gangs(root)
        if cfg["kind"] != "ddp":
            gangs = create_fsdp_gangs(gangs, cfg["hybrid"])
        out: dict = {"n": 0, "ops": 0, "cases": []}
        for name in names:
            for meta in (False, True) if cfg["kind"] != "fsdp1" else (False,):
                for seq in sequences(cfg, 1 if meta else depth):
                    where = f"{cfg['label']}, {name}{', meta initialised' if meta else ''}, {' > '.join(seq) or 'nothing'}"
                    try:
                        rig = Rig(cfg, name, gangs, meta)
                        for op in seq:
                            rig.do(op)
                        rig.finish()
                    except Violation as v:
                        raise Violation(v.key, f"{where}: process {rank}: {v.msg}")
                    except (RuntimeError, GangError) as ex:
                        if "gloo" in f"{ex} {ex.__cause__}":
                            raise  # Another process has ended.
                        raise Violation("exception", f"{where}: process {rank}: {type(ex).__name__}: {ex} {ex.__cause__ or ''}", traceback.format_exc())
                    except Exception as ex:  # noqa: BLE001
                        raise Violation("exception", f"{where}: process {rank}: {type(ex).__name__}: {ex} {ex.__cause__ or ''}", traceback.format_exc())
                    out["n"] += 1
                    out["ops"] += len(seq)
                    out["cases"].append(where)
        return out

    return fn


# ----------------------------------------------------------- model families


def capture(name: str) -> tuple[Any, Any, bool]:
    """Returns the model family, configuration and kind of input of a model."""
    import importlib

    from checks import nn_common

    class Got(Exception):
        pass

    def grab(config: Any) -> Any:
        raise Got(config)

    saved = []
    for fam in ("llama", "llama4", "qwen", "mistral", "olmo", "gemma3n", "nllb", "s2t_transformer", "s2t_conformer", "wav2vec2.asr"):
        mod = importlib.import_module(f"fairseq2.models.{fam}.factory")
        fn = f"create_{fam.replace('.', '_')}_model"
        saved.append((mod, fn, getattr(mod, fn)))
        setattr(mod, fn, grab)
    try:
        if name == "wav2vec2-asr":
            from checks.b01 import wav2vec2_net

            wav2vec2_net()
        elif name in nn_common.lm_models():
            nn_common.lm_models()[name]()
        else:
            nn_common.seq2seq_models()[name][0]()
    except Got as g:
        config = g.args[0]
    finally:
        for mod, fn, f in saved:
            setattr(mod, fn, f)
    for family in families():
        if family.config_kls is type(config):
            return family, config, name in nn_common.seq2seq_models()
    raise AssertionError(name)


def families() -> list:
    from fairseq2.models.family import ModelFamily
    from fairseq2.runtime.dependency import get_dependency_resolver

    r = get_dependency_resolver()
    return [r.resolve(ModelFamily, key=k) for k in ("llama", "llama4", "qwen", "mistral", "olmo", "gemma3n", "nllb", "s2t_transformer",
                                                   "s2t_conformer", "wav2vec2_asr")]


def forward(name: str, m: Any, step: int, rank: int) -> Tensor:
    from checks.nn_common import V

    from fairseq2.nn import BatchLayout

    def ids(k: int, lens: list[int]) -> tuple[Tensor, Any]:
        x = torch.tensor([[2 + (7 * k + 5 * step + 3 * rank + 11 * r + i * i) % (V - 3) for i in range(max(lens))] for r in range(len(lens))])
        return x, BatchLayout.of(x, lens)

    g = torch.Generator().manual_seed(100 * step + rank)
    if name == "wav2vec2-asr":
        x = torch.randn((2, 24), generator=g)
        return m(x, BatchLayout.of(x, [24, 17 + rank]))[0]
    if name == "nllb":
        return m(*ids(1, [3, 2]), *ids(2, [4, 1 + rank]))
    if name.startswith("s2t"):
        x = torch.randn((2, 13, 8), generator=g)
        return m(x, BatchLayout.of(x, [13, 9]), *ids(2, [4, 1 + rank]))
    return m(*ids(1, [5, 3 + rank]))


def family_program(name: str, cfg: dict) -> Callable:
    def fn(rank: int, root: Any) -> tuple:
        from checks.nn_common import randomize

        from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs
        from fairseq2.nn.data_parallel import get_data_parallel_facade

        torch.set_num_threads(1)
        family, config, _ = capture(name)
        gangs = create_parallel_gangs(root)
        if cfg["kind"] != "ddp":
            gangs = create_fsdp_gangs(gangs, cfg["hybrid"])
        done, notes = [], []
        for gran, ac in cfg["modes"]:
            where = f"{cfg['label']}, {name}, granularity {gran}, activation checkpointing {ac}"

            def fail(key: str, msg: str) -> None:
                raise Violation(key, f"{where}: process {rank}: {msg}")

            def note(key: str, msg: str) -> None:
                notes.append((key, f"{where}: process {rank}: {msg}"))

            try:
                torch.manual_seed(rank)
                m = family.create_new_model(config, gangs, torch.float32, False, True).eval()
                if rank == 0:
                    randomize(m, 3)
                ref = randomize(family.create_new_model(config, one_process(), torch.float32, False, True), 3).eval()
                if ac:
                    m = family.apply_layerwise_ac(m, ac)
                if cfg["kind"] == "ddp":
                    from fairseq2.nn.ddp import to_ddp

                    w = to_ddp(m, gangs, find_unused_parameters=True)
                else:
                    from fairseq2.nn.fsdp import to_fsdp

                    def applier(mod: Any, wrapper: Any) -> Any:
                        if gran == "model":
                            return wrapper(mod, reshard_after_forward=False)
                        return family.apply_fsdp(mod, gran, wrapper)

                    w = to_fsdp(m, gangs, applier, version="v2", broadcast_state=True)
                f = get_data_parallel_facade(w)
                opt, ropt = sgd(list(w.parameters())), sgd(list(ref.parameters()))
                for step in range(3):
                    ctx = f.no_sync() if step == 0 else nullcontext()
                    with ctx:
                        (forward(name, w, step, rank).float() ** 2).mean().backward()
                    for r in range(gangs.dp.size):
                        ((forward(name, ref, step, r).float() ** 2).mean() / gangs.dp.size).backward()
                    if step == 0:
                        continue
                    got = full(f.clip_grad_norm(0.5))
                    want = nn.utils.clip_grad_norm_(ref.parameters(), 0.5)
                    if not torch.allclose(got, want, rtol=1e-3, atol=1e-5):
                        fail("family-norm", f"gradient norm is {got.item()} instead of {want.item()}")
                    for o in (opt, ropt):
                        o.step()
                        o.zero_grad(set_to_none=True)
                with torch.no_grad(), f.summon_full_parameters():
                    if rank == 1:
                        a, b = forward(name, w, 7, rank), forward(name, ref, 7, rank)
                        if not torch.allclose(a, b, rtol=1e-3, atol=1e-4):
                            fail("family-output", f"output differs by {(a - b).abs().max().item()}")
                    want_p = dict(ref.named_parameters())
                    for n, p in w.named_parameters():
                        n = Rig.clean(n)
                        if not torch.allclose(p, want_p.pop(n), rtol=1e-3, atol=1e-5):
                            fail("family-params", f"parameter {n} differs")
                    if want_p:
                        fail("family-names", f"parameters {sorted(want_p)} are missing")
                    want_b = dict(ref.named_buffers())
                    for n, p in w.named_buffers():
                        if not torch.equal(p, want_b[Rig.clean(n)]):
                            fail("family-buffers", f"buffer {n} differs")
                sd = f.state_dict()
                if set(sd) != set(ref.state_dict()):
                    fail("family-state", f"the state differs in {sorted(set(sd) ^ set(ref.state_dict()))[:4]}")
                if cfg["kind"] != "ddp":
                    native(sd, ref.state_dict(), gangs, {n for n, _ in ref.named_buffers()}, fail, note)
            except (Violation, AssertionError):
                raise
            except Exception as ex:  # noqa: BLE001
                if "gloo" in f"{ex} {ex.__cause__}":
                    raise
                raise Violation("exception", f"{where}: process {rank}: {type(ex).__name__}: {ex} {ex.__cause__ or ''}", traceback.format_exc())
            done.append(where)
        return done, notes

    return fn


def one_process() -> Any:
    from fairseq2.device import CPU
    from fairseq2.gang import create_fake_gangs

    return create_fake_gangs(CPU)


def native(sd: dict, want: dict, gangs: Any, buffers: set, fail: Callable, note: Callable) -> None:
    """The shards, saved as a checkpoint, load into a single process."""
    import torch.distributed as dist

    if gangs.rdp.rank != 0:
        return
    parts: list = [None] * gangs.sdp.size
    dist.all_gather_object(parts, {k: v.clone() for k, v in sd.items()}, group=gangs.sdp.as_process_group())
    if gangs.dp.rank:
        return
    from checks.k01 import ROOT, Box, load

    def attempt(parts: list) -> str | None:
        box = Box()
        box.put_native([[parts]])
        try:
            got = dict(load(box, ROOT, {}, 1, 0))
        except Exception as ex:  # noqa: BLE001
            return f"the saved shards do not load: {type(ex).__name__}: {ex}"
        for k, v in got.items():
            if v.shape != want[k].shape or not torch.allclose(v, want[k], rtol=1e-3, atol=1e-5):
                return f"{k} of the saved shards is loaded with shape {tuple(v.shape)}, expected {tuple(want[k].shape)}"
        return None

    msg = attempt(parts)
    if msg is None:
        return
    if buffers:
        rest = attempt([{k: v for k, v in p.items() if k not in buffers} for p in parts])
        if rest is None:
            note("native-buffers", msg)
            return
        msg = rest
    fail("native", msg)


def family_configs(thorough: bool) -> list[dict]:
    fsdp = [("layer", 0), ("stack", 0), ("model", 0), ("layer", 1), ("layer", 2), ("stack", 1)]
    return [
        dict(label="DDP, 2 processes", kind="ddp", world=2, modes=[("-", 0), ("-", 1), ("-", 2)]),
        dict(label="FSDP2, 2 processes", kind="fsdp2", world=2, hybrid=None, modes=fsdp),
        dict(label="FSDP2, 2x2 processes", kind="fsdp2", world=4, hybrid=2, modes=[("layer", 0), ("stack", 1)]),
    ]


FAMILY_MODELS = ("llama", "llama4", "qwen2", "qwen3", "mistral-w3", "olmo2", "gemma3n", "nllb", "s2t-transformer", "s2t-conformer",
                 "s2t-conformer-relative", "wav2vec2-asr")


DEEP = ("DDP, 2 processes", "FSDP2, 2 processes, layer")


def configs(thorough: bool) -> list[dict]:
    out = []

    def add(label: str, kind: str, world: int, hybrid: int | None = None, gran: str = "layer", mp: Any = None) -> None:
        out.append(dict(label=label, kind=kind, world=world, hybrid=hybrid, gran=gran, mp=mp))

    add("DDP, 2 processes", "ddp", 2)
    add("DDP, 3 processes", "ddp", 3)
    for g in ("layer", "model", "model-reshard", "keep"):
        add(f"FSDP2, 2 processes, {g}", "fsdp2", 2, None, g)
    add("FSDP2, 3 processes, layer", "fsdp2", 3)
    add("FSDP2, 2x2 processes, layer", "fsdp2", 4, 2)
    add("FSDP2, 2x2 processes, model", "fsdp2", 4, 2, "model")
    add("FSDP2, 2 processes, layer, bfloat16", "fsdp2", 2, None, "layer", torch.bfloat16)
    add("FSDP1, 2 processes, layer", "fsdp1", 2)
    add("FSDP1, 2 processes, model", "fsdp1", 2, None, "model")
    add("FSDP1, 2x2 processes, layer", "fsdp1", 4, 2)
    return out


def check(rep: Report) -> None:
    def job(cfg: dict, name: str) -> Callable[[Report], None]:
        def go(r: Report) -> None:
            depth = 3 if rep.thorough or (cfg["label"] in DEEP and name in ("mlp", "tied")) else 2
            outs = run_gloo(cfg["world"], program(cfg, [name], depth), key="process")
            r.count("evaluations", outs[0]["n"])
            r.count("states", outs[0]["n"])
            r.count("transitions", outs[0]["ops"])
            for c in outs[0]["cases"]:
                r.case(c)

        return go

    jobs = []
    for cfg, name in itertools.product(configs(rep.thorough), MODULES):
        if cfg["mp"] is None or name in ("mlp", "tied", "frozen", "tiny"):
            jobs.append(job(cfg, name))
    def family_job(cfg: dict, name: str) -> Callable[[Report], None]:
        def go(r: Report) -> None:
            done, notes = run_gloo(cfg["world"], family_program(name, cfg), key="process")[0]
            for k, m in notes:
                r.violate(k, m)
            r.count("evaluations", len(done))
            r.count("states", len(done))
            r.count("transitions", 3 * len(done))
            for c in done:
                r.case(c)

        return go

    for cfg, name in itertools.product(family_configs(rep.thorough), FAMILY_MODELS):
        jobs.append(family_job(cfg, name))
    run_jobs(rep, jobs)
    rep.assumptions.append("PyTorch's own DDP and FSDP over gloo; the schedules of the processes are not controlled")
