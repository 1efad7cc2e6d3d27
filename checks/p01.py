"""P01: tensor parallelism computes what the unsharded model computes."""

from __future__ import annotations

import itertools
from typing import Any, Callable

from mc import boot

boot.init()

import torch
from torch import Tensor

from mc.gloo import run_gloo
from mc.par import run_jobs
from mc.report import Report, Violation
from mc.simgang import run_ranks

LEVEL = "model_checking"

F64 = torch.float64
TOL = 2e-5  # Rotary encoders compute in single precision


def close(a: Tensor, b: Tensor, tol: float = TOL) -> bool:
    if a.shape != b.shape:
        return False
    a, b = a.detach().double(), b.detach().double()
    return bool(((a - b).abs() <= tol * (1.0 + b.abs())).all())


def need(key: str, what: str, a: Tensor | None, b: Tensor | None, tol: float = TOL) -> None:
    if (a is None) != (b is None):
        raise Violation(key, f"{what}: one side has no value (got {a is not None}, expected {b is not None})")
    if a is None or b is None:
        return
    if not close(a, b, tol):
        err = "shape %s vs %s" % (tuple(a.shape), tuple(b.shape))
        if a.shape == b.shape:
            err = f"max difference {(a.detach().double() - b.detach().double()).abs().max().item():.3g}"
        raise Violation(key, f"{what}: differs from the unsharded computation ({err})")


def rnd(shape: tuple[int, ...], salt: int) -> Tensor:
    g = torch.Generator().manual_seed(1000 + salt)
    return torch.randn(shape, generator=g, dtype=F64)


# --------------------------------------------------------------------- ops

GRADS = ("dense", "expanded", "transposed", "shared")


def op_program(me: int, gang: Any, cfg: tuple) -> list[Tensor]:
    """Forward and backward of one op; returns output and gradient."""
    from fairseq2.ops import tensor_parallel as ops

    op, shape, dim, gkind = cfg
    n, r = gang.size, gang.rank

    x = rnd(shape, r if op in ("reduce", "gather") else 0)
    x0 = x.clone()
    x.requires_grad_(True)
    z = x * 1.0

    if op == "reduce":
        y = ops.reduce(z, gang)
    elif op == "scatter":
        y = ops.scatter(z, gang, dim)
    elif op == "gather":
        y = ops.gather(z, gang, dim)
    else:
        y = ops.reduce_on_backward(z, gang)

    up = upstream(y.shape, gkind, r)
    if gkind == "shared" and y.shape == z.shape:
        # The same gradient tensor flows into two branches.
        out = y + z
    else:
        out = y
    out.backward(up)
    assert x.grad is not None
    if not torch.equal(x.detach(), x0) or not torch.equal(up, upstream(y.shape, gkind, r)):
        raise Violation("op-modifies-input", f"{cfg} with {n} processes: the op changed its input or the incoming gradient")
    return [y.detach().clone(), x.grad.clone()]


def upstream(shape: Any, gkind: str, r: int) -> Tensor:
    if gkind == "expanded":
        return rnd((1,), 77 + r).expand(tuple(shape))
    if gkind == "transposed":
        return rnd(tuple(reversed(tuple(shape))), 55 + r).permute(*reversed(range(len(shape))))
    return rnd(tuple(shape), 99 + r)


def op_spec(n: int, r: int, cfg: tuple) -> list[Tensor]:
    op, shape, dim, gkind = cfg
    xs = [rnd(shape, k if op in ("reduce", "gather") else 0) for k in range(n)]
    if op == "reduce":
        y = sum(xs)
        g = upstream(y.shape, gkind, r).clone()
    elif op == "scatter":
        parts = xs[r].chunk(n, dim=dim)
        y = parts[r]
        g = torch.cat([upstream(y.shape, gkind, k) for k in range(n)], dim=dim)
    elif op == "gather":
        y = torch.cat(xs, dim=dim)
        g = upstream(y.shape, gkind, r).chunk(n, dim=dim)[r]
    else:
        y = xs[r]
        g = sum(upstream(y.shape, gkind, k) for k in range(n))
    if gkind == "shared" and y.shape == tuple(shape):
        g = g + upstream(y.shape, gkind, r)
    return [y, g]


def op_cfgs(n: int, big: bool) -> list[tuple]:
    shapes = [(n,), (2, 2 * n), (n, 3, n)]
    if big:
        shapes += [(n, n, 2, n), (1, 3 * n), (n, 1)]
    out = []
    for s, g in itertools.product(shapes, GRADS):
        out.append(("reduce", s, 0, g))
        out.append(("reduce_on_backward", s, 0, g))
        for d in range(-len(s), len(s)):
            if s[d] % n == 0:
                out.append(("scatter", s, d, g))
            out.append(("gather", s, d, g))
    return out


def check_ops(rep: Report, big: bool) -> None:
    for n in (1, 2, 3, 4):
        for cfg in op_cfgs(n, big):
            def fn(r: int, gangs: Any) -> list[Tensor]:
                return op_program(r, gangs.tp, cfg)

            try:
                got = run_ranks(n, fn, tp_size=n)
                for r in range(n):
                    exp = op_spec(n, r, cfg)
                    need("op-output", f"{cfg}, {n} processes, rank {r}: output", got[r][0], exp[0], 1e-12)
                    need("op-grad", f"{cfg}, {n} processes, rank {r}: gradient", got[r][1], exp[1], 1e-12)
            except Violation as v:
                rep.violate(v.key, v.msg)
            except RuntimeError as ex:
                # Includes gradients that autograd refuses.
                rep.violate("op-error", f"{cfg}, {n} processes: {type(ex).__name__}: {ex}")
            rep.count("op_cases")
            rep.case(("op", n, cfg))
    # Sizes that cannot be split are refused everywhere.
    from fairseq2.ops import tensor_parallel as ops

    for n in (2, 3, 4):
        for size in range(1, 2 * n):
            if size % n == 0:
                continue

            def bad(r: int, gangs: Any) -> str:
                try:
                    ops.scatter(torch.zeros(2, size), gangs.tp)
                except ValueError:
                    return "refused"
                return "accepted"

            got = run_ranks(n, bad, tp_size=n)
            if set(got) != {"refused"}:
                rep.violate("scatter-uneven", f"scattering {size} elements over {n} processes: {got}")
            rep.count("op_cases")


# ------------------------------------------------------------------- twins


def shards(module: Any, gang: Any) -> dict[str, int]:
    from fairseq2.nn.sharded import get_shard_dims

    return get_shard_dims(module) if gang.size > 1 else {}


def my_part(full: Tensor, dim: int | None, gang: Any) -> Tensor:
    if dim is None:
        return full
    return full.chunk(gang.size, dim=dim)[gang.rank]


def compare_params(key: str, what: str, module: Any, ref: Any, gang: Any, grads: bool, skip: Callable[[str], str | None] = lambda n: None, tol: float = TOL) -> None:
    dims = shards(module, gang)
    ref_params = dict(ref.named_parameters())
    names = [n for n, _ in module.named_parameters()]
    if sorted(names) != sorted(ref_params):
        raise Violation(key + "-names", f"{what}: parameters {sorted(names)} instead of {sorted(ref_params)}")
    late: Violation | None = None
    for name, p in module.named_parameters():
        q = ref_params[name]
        a, b = (p.grad, q.grad) if grads else (p, q)
        if b is not None:
            b = my_part(b.detach(), dims.get(name), gang)
        k = skip(name) or key
        try:
            need(k, f"{what}: {'gradient of ' if grads else ''}{name} (rank {gang.rank} of {gang.size})", a, b, tol)
        except Violation as v:
            if v.key == key:
                raise
            late = v
    if late:
        raise late


def twin(
    make: Callable[[Any], Any],
    inputs: Callable[[], list[Tensor]],
    call: Callable[[Any, list[Tensor]], Tensor],
    gangs: Any,
    what: str,
    skip: Callable[[str], str | None] = lambda n: None,
    steps: int = 1,
    clip: float | None = None,
    weights: Callable[[Any, Any, Tensor], Tensor] | None = None,
) -> None:
    """Builds the module with and without tensor parallelism from the same
    seed and compares parameters, outputs, gradients, and updates."""
    from fairseq2.gang import create_fake_gangs, set_gangs
    from fairseq2.nn.utils.grad import clip_grad_norm

    fake = create_fake_gangs(gangs.root.device)

    # No collective is issued while modules are constructed, so that the
    # process-wide random number generator can be used here.
    with set_gangs(fake):
        torch.manual_seed(3)
        ref = make(fake)
        end0 = torch.randn(4)
    with set_gangs(gangs):
        torch.manual_seed(3)
        mod = make(gangs)
        end1 = torch.randn(4)
    ref.double()
    mod.double()

    g = gangs.tp
    compare_params("init", f"{what}: initialization", mod, ref, g, grads=False, tol=0.0)
    if not torch.equal(end0, end1):
        raise Violation("init-rng", f"{what}: creating the sharded module leaves the random number generator in another state")

    o0 = torch.optim.SGD(ref.parameters(), lr=0.5)
    o1 = torch.optim.SGD(mod.parameters(), lr=0.5)
    late: Violation | None = None
    for step in range(steps):
        i0, i1 = inputs(), inputs()
        for t in i0 + i1:
            if t.is_floating_point():
                t.requires_grad_(True)
        y0, y1 = call(ref, i0), call(mod, i1)
        w = f"{what}: step {step}"
        need("output", f"{w}: output at rank {g.rank} of {g.size}", y1, y0)
        up = rnd(tuple(y0.shape), 5)
        y0.backward(up)
        y1.backward(up)
        for a, b in zip(i1, i0):
            need("input-grad", f"{w}: gradient of the input at rank {g.rank} of {g.size}", a.grad, b.grad)
        key = "grad"
        try:
            compare_params(key, w, mod, ref, g, grads=True, skip=skip)
        except Violation as v:
            if v.key == key:
                raise
            late = v
            break
        if clip is not None:
            n0 = clip_grad_norm(ref, clip)
            n1 = clip_grad_norm(mod, clip)
            try:
                need("tp-clip", f"{w}: gradient norm", n1, n0)
            except Violation as v:
                late = v
                break
        o0.step()
        o1.step()
        compare_params("update", f"{w}: updated parameters", mod, ref, g, grads=False)
        o0.zero_grad()
        o1.zero_grad()
    if late:
        raise late


def run_twin(rep: Report, n: int, fn: Callable[[Any], None], cfg: Any) -> None:
    """Runs fn(gangs) in n simulated tensor parallel processes."""

    def main(r: int, gangs: Any) -> Violation | None:
        try:
            fn(gangs)
        except Violation as v:
            return v
        return None

    from mc.sched import Deadlock

    out: list = []

    def main2(r: int, gangs: Any) -> None:
        v = main(r, gangs)
        if v is not None:
            out.append(v)

    try:
        run_ranks(n, main2, tp_size=n)
    except Deadlock:
        # A process that found a difference stops early.
        if not out:
            raise
    seen = set()
    for v in out:
        if v.key not in seen:
            seen.add(v.key)
            rep.violate(v.key, v.msg)
    rep.count("twins")
    rep.case((n, repr(cfg)))


# ------------------------------------------------------------------ layers


def layer_cases(n: int, big: bool) -> list[tuple]:
    out: list[tuple] = []
    for bias, initf, shape in itertools.product((False, True), (None, "bert"), ((3,), (2, 3)) if not big else ((), (3,), (2, 3), (1, 1, 2))):
        for go in (False, True):
            out.append(("column", bias, initf, shape, go))
        for si, ro in itertools.product((False, True), repeat=2):
            if ro or not bias:
                out.append(("row", bias, initf, shape, si, ro))
    vocab = 2 * n
    for kind in ("vocab", "embed"):
        for pad in [None, *range(vocab)]:
            for initf in (None, "scaled"):
                out.append((kind, pad, initf))
    return out


def layer_program(gangs: Any, cfg: tuple, full: bool = True) -> list:
    """Compares one sharded layer with its unsharded definition."""
    from fairseq2.nn import (
        ColumnShardedLinear, Linear, RowShardedLinear, ShardedEmbedding,
        StandardEmbedding, VocabShardedEmbedding,
    )
    from fairseq2.nn.embedding import init_scaled_embedding
    from fairseq2.nn.projection import init_bert_projection

    g = gangs.tp
    n, r = g.size, g.rank
    what = f"{cfg} with {n} processes"
    log: list = []

    if cfg[0] in ("column", "row"):
        kind, bias, initf, shape, *opts = cfg
        init = init_bert_projection if initf else None
        I, O = 2 * n, 3 * n
        torch.manual_seed(11)
        ref = Linear(I, O, bias, init_fn=init, dtype=F64)
        torch.manual_seed(11)
        if kind == "column":
            mod = ColumnShardedLinear(I, O, bias, gather_output=opts[0], init_fn=init, gangs=gangs, dtype=F64)
        else:
            mod = RowShardedLinear(I, O, bias, scatter_input=opts[0], reduce_output=opts[1], init_fn=init, gangs=gangs, dtype=F64)
        compare_params("init", f"{what}: initialization", mod, ref, g, False, tol=0.0)
        if kind == "column":
            cp = ColumnShardedLinear.from_linear(ref, gangs=gangs, gather_output=opts[0])
        else:
            cp = RowShardedLinear.from_linear(ref, gangs=gangs, scatter_input=opts[0], reduce_output=opts[1])
        compare_params("from-linear", f"{what}: from_linear", cp, ref, g, False, tol=0.0)
        back = mod.to_linear()
        for (a, p), (b, q) in zip(back.named_parameters(), ref.named_parameters()):
            if a != b or p.shape != q.shape or not torch.equal(p, q):
                raise Violation("to-linear", f"{what}: to_linear() does not restore {b}")
        w = torch.nn.Parameter(ref.weight.detach().clone())
        b_ = None if ref.bias is None else torch.nn.Parameter(ref.bias.detach().clone())
        xf = rnd((*shape, I), 1)
        x0 = xf.clone().requires_grad_(True)
        y0 = torch.nn.functional.linear(x0, w, b_)
        if kind == "row" and not opts[0]:
            x1 = xf.chunk(n, -1)[r].clone().requires_grad_(True)
        else:
            x1 = xf.clone().requires_grad_(True)
        for m in (mod, cp):
            x1.grad = None
            m.zero_grad()
            y1 = m(x1)
            up = rnd((*shape, O), 2)
            if kind == "column" and not opts[0]:
                exp, u1 = y0.chunk(n, -1)[r], up.chunk(n, -1)[r]
            else:
                exp, u1 = y0, up
            if kind == "row" and not opts[1]:
                tot = y1.detach().clone()
                from fairseq2.gang import ReduceOperation

                g.all_reduce(tot, ReduceOperation.SUM)
                need("layer-output", f"{what}: sum of the outputs", tot, exp, 1e-9)
            else:
                need("layer-output", f"{what}: output at rank {r}", y1, exp, 1e-9)
            y1.backward(u1)
            x0.grad = None
            w.grad = None
            if b_ is not None:
                b_.grad = None
            y0.backward(up, retain_graph=True)
            xg = x0.grad
            assert xg is not None and w.grad is not None
            if kind == "row" and not opts[0]:
                xg = xg.chunk(n, -1)[r]
            need("layer-input-grad", f"{what}: input gradient at rank {r}", x1.grad, xg, 1e-9)
            dim = 0 if kind == "column" else 1
            need("layer-weight-grad", f"{what}: weight gradient at rank {r}", m.weight.grad, my_part(w.grad, dim, g), 1e-9)
            if b_ is not None:
                assert b_.grad is not None
                bg = my_part(b_.grad, 0 if kind == "column" else None, g)
                need("layer-bias-grad", f"{what}: bias gradient at rank {r}", m.bias.grad, bg, 1e-9)
            log += [y1.detach().clone(), x1.grad.clone(), m.weight.grad.clone()]
        return log

    kind, pad, initf = cfg
    V, E = 2 * n, 2 * n
    init = init_scaled_embedding if initf else None
    kls = VocabShardedEmbedding if kind == "vocab" else ShardedEmbedding
    torch.manual_seed(12)
    ref = StandardEmbedding(V, E, pad, init_fn=init, dtype=F64)
    torch.manual_seed(12)
    mod = kls(V, E, pad, init_fn=init, gangs=gangs, dtype=F64)
    compare_params("init", f"{what}: initialization", mod, ref, g, False, tol=0.0)
    cp = kls.from_embedding(ref, gangs=gangs)
    compare_params("from-embedding", f"{what}: from_embedding", cp, ref, g, False, tol=0.0)
    back = mod.to_embedding()
    if not torch.equal(back.weight, ref.weight) or back.pad_idx != pad:
        raise Violation("to-embedding", f"{what}: to_embedding() does not restore the table")
    # Every index sequence of length 1 and every ordered pair.
    seqs = [[a, b] for a in range(V) for b in range(V)] if full else [[a, (a + 1) % V] for a in range(V)]
    x = torch.tensor(seqs)
    tab = ref.weight.detach()
    for m in (mod, cp):
        m.zero_grad()
        y = m(x)
        need("layer-output", f"{what}: embeddings at rank {r}", y, tab[x], 1e-9)
        up = rnd(tuple(y.shape), 6)
        y.backward(up)
        wg = torch.zeros(V, E, dtype=F64)
        wg.index_add_(0, x.flatten(), up.reshape(-1, E))
        if pad is not None:
            wg[pad] = 0.0
        need("layer-weight-grad", f"{what}: table gradient at rank {r}", m.weight.grad, my_part(wg, 0 if kind == "vocab" else 1, g), 1e-9)
        log += [y.detach().clone(), m.weight.grad.clone()]
    return log


def check_layers(rep: Report, n: int, big: bool) -> None:
    for cfg in layer_cases(n, big):
        run_twin(rep, n, lambda gangs: layer_program(gangs, cfg), cfg)
    # Sizes that cannot be sharded are refused.
    if n == 1:
        return
    from fairseq2.nn import ColumnShardedLinear, RowShardedLinear, ShardedEmbedding, VocabShardedEmbedding

    for k in range(1, n):
        makes = {
            "column": lambda gs: ColumnShardedLinear(n, n + k, True, gangs=gs),
            "row": lambda gs: RowShardedLinear(n + k, n, True, gangs=gs),
            "vocab": lambda gs: VocabShardedEmbedding(n + k, n, gangs=gs),
            "embed": lambda gs: ShardedEmbedding(n, n + k, gangs=gs),
        }
        for name, mk in makes.items():
            def bad(r: int, gangs: Any) -> bool:
                try:
                    mk(gangs)
                except ValueError:
                    return True
                return False

            if not all(run_ranks(n, bad, tp_size=n)):
                rep.violate("uneven-layer", f"{name}: a size of {n + k} is accepted with {n} processes")
            rep.count("twins")


# ------------------------------------------------------------------ blocks


def check_blocks(rep: Report, n: int, big: bool) -> None:
    from fairseq2.models.transformer import (
        DauphinFeedForwardNetwork, GLUFeedForwardNetwork, StandardFeedForwardNetwork,
        StandardMultiheadAttention, create_default_sdpa,
    )
    from fairseq2.models.transformer import AttentionBiasCache, CausalAttentionBias, IdentityBias
    from fairseq2.nn import BatchLayout, RMSNorm, RotaryEncoder

    M = 4
    x_of = lambda: [rnd((2, 3, M), 21)]

    for bias in (False, True):
        for inner in (n, 2 * n, 4 * n):
            ffns: list[tuple] = [("standard", lambda gs: StandardFeedForwardNetwork(M, inner, bias, gangs=gs))]
            ffns.append(("dauphin", lambda gs: DauphinFeedForwardNetwork(M, inner, bias, gangs=gs)))
            for sc, mul in ((1.0, 1), (0.5, n), (2.0, 2 * n)):
                ffns.append((f"glu {sc} {mul}", lambda gs, sc=sc, mul=mul: GLUFeedForwardNetwork(M, inner, bias, inner_dim_scale=sc, inner_dim_to_multiple=mul, gangs=gs)))
            for sp in (0.3, 0.8):
                ffns.append((f"glu sparse {sp}", lambda gs, sp=sp: GLUFeedForwardNetwork(M, inner, bias, inner_dim_scale=1.0, activation_sparsity=sp, gangs=gs)))
            for name, mk in ffns:
                cfg = ("ffn", name, bias, inner)
                run_twin(rep, n, lambda gs: twin(mk, x_of, lambda m, i: m(i[0]), gs, f"{cfg}, {n} processes", steps=2), cfg)

    hd = 2
    for heads in (n, 2 * n):
        for kv in {heads, n}:
            if heads % kv:
                continue
            for bias, norm, rot, causal, mode in itertools.product((False, True), ("", "q", "qk"), (False, True), (False, True), ("self", "cross")):
                if mode == "cross" and (causal or rot):
                    continue
                if not big and norm == "q" and rot:
                    continue

                def mk(gs: Any) -> Any:
                    sdpa = create_default_sdpa(CausalAttentionBias() if causal else IdentityBias())
                    return StandardMultiheadAttention(
                        M, heads, sdpa, head_dim=hd, num_key_value_heads=kv, bias=bias,
                        q_norm=RMSNorm(hd, bias=False) if "q" in norm else None,
                        k_norm=RMSNorm(hd, bias=False) if "k" in norm else None,
                        pos_encoder=RotaryEncoder(hd, 8) if rot else None,
                        gangs=gs,
                    )

                def call(m: Any, i: list[Tensor]) -> Tensor:
                    q = i[0]
                    k = q if mode == "self" else i[1]
                    ql = BatchLayout(tuple(q.shape[:2]), seq_lens=None)
                    kl = BatchLayout(tuple(k.shape[:2]), seq_lens=None)
                    return m(q, ql, k, kl, k, AttentionBiasCache())

                def ins() -> list[Tensor]:
                    return [rnd((2, 3, M), 22)] + ([rnd((2, 4, M), 23)] if mode == "cross" else [])

                def skip(name: str) -> str | None:
                    return "tp-qk-norm-grad" if "_norm" in name else None

                cfg = ("mha", heads, kv, bias, norm, rot, causal, mode)
                run_twin(rep, n, lambda gs: twin(mk, ins, call, gs, f"{cfg}, {n} processes", skip=skip, steps=2), cfg)


# ------------------------------------------------------------------ models


def lm_models(n: int, big: bool) -> list[tuple[str, Callable[[Any], Any]]]:
    from fairseq2.models.llama.config import LLaMAConfig
    from fairseq2.models.llama.factory import create_llama_model
    from fairseq2.models.mistral.config import MistralConfig
    from fairseq2.models.mistral.factory import create_mistral_model
    from fairseq2.models.qwen.config import QwenConfig
    from fairseq2.models.qwen.factory import create_qwen_model

    out: list[tuple[str, Callable[[Any], Any]]] = []
    D = 4 * n
    for shard, kv, pad in itertools.product((True, False), {n, 2 * n}, (None, 0)):
        c = LLaMAConfig(
            model_dim=D, max_seq_len=8, vocab_size=2 * n, pad_idx=pad, num_layers=2, num_attn_heads=2 * n,
            num_key_value_heads=kv, ffn_inner_dim=4 * n, ffn_inner_dim_scale=1.0, ffn_inner_dim_multiple_of=n,
            shard_embed_dim=shard,
        )
        out.append((f"llama shard_embed_dim={shard} kv={kv} pad={pad}", lambda gs, c=c: create_llama_model(c)))
    for kw in ({}, dict(q_norm=True, k_norm=True)):
        for hd in (None, 4):
            q = QwenConfig(
                model_dim=D, max_seq_len=8, vocab_size=2 * n, num_layers=2, num_attn_heads=2 * n, head_dim=hd,
                num_key_value_heads=n, ffn_inner_dim=4 * n, **kw,
            )
            out.append((f"qwen {kw} head_dim={hd}", lambda gs, q=q: create_qwen_model(q)))
    m = MistralConfig(
        model_dim=D, max_seq_len=8, vocab_size=2 * n, attn_window_len=2, num_layers=2, num_attn_heads=2 * n,
        num_key_value_heads=n, ffn_inner_dim=4 * n,
    )
    out.append(("mistral", lambda gs: create_mistral_model(m)))
    return out


def check_models(rep: Report, n: int, big: bool) -> None:
    from fairseq2.models.nllb.config import NllbConfig
    from fairseq2.models.nllb.factory import create_nllb_model
    from fairseq2.nn import BatchLayout

    def skip(name: str) -> str | None:
        return "tp-qk-norm-grad" if "q_norm" in name or "k_norm" in name else None

    toks = torch.tensor([[(3 * i + j) % (2 * n) for j in range(4)] for i in range(3)])

    layouts = [None, [4, 2, 3]]
    for name, mk in lm_models(n, big):
        for lens in layouts:
            def call(m: Any, i: list[Tensor]) -> Tensor:
                return m(i[0], BatchLayout(tuple(i[0].shape), seq_lens=lens))

            def loss(m: Any, i: list[Tensor]) -> Tensor:
                return m(i[0], BatchLayout(tuple(i[0].shape), seq_lens=lens), (i[0] + 1) % (2 * n))

            for what, c in (("logits", call), ("loss", loss)):
                for clip in (None, 0.05) if what == "loss" and lens is None else (None,):
                    cfg = (name, what, lens, clip)
                    run_twin(rep, n, lambda gs: twin(mk, lambda: [toks.clone()], c, gs, f"{cfg}, {n} processes", skip=skip, steps=3, clip=clip), cfg)

    c2 = NllbConfig(
        model_dim=2 * n, max_seq_len=8, vocab_size=6, num_encoder_layers=1, num_decoder_layers=2,
        num_encoder_attn_heads=n, num_decoder_attn_heads=n, ffn_inner_dim=2 * n, dropout_p=0.0,
    )
    src = torch.tensor([[1, 2, 3], [4, 5, 1]])
    tgt = torch.tensor([[1, 2, 3, 1], [4, 5, 1, 2]])

    def call2(m: Any, i: list[Tensor]) -> Tensor:
        return m(i[0], BatchLayout((2, 3), seq_lens=[3, 2]), i[1], BatchLayout((2, 4), seq_lens=[4, 3]))

    run_twin(rep, n, lambda gs: twin(lambda g: create_nllb_model(c2), lambda: [src.clone(), tgt.clone()], call2, gs, f"nllb, {n} processes", steps=3), ("nllb",))


# -------------------------------------------------------------------- gloo


def gloo_programs(gangs: Any, big: bool) -> list:
    n, r = gangs.tp.size, gangs.tp.rank
    out: list = []
    for cfg in op_cfgs(n, big):
        out.append((cfg, op_program(r, gangs.tp, cfg)))
    for cfg in layer_cases(n, big):
        out.append((cfg, layer_program(gangs, cfg, full=False)))
    return out


def check_gloo(rep: Report, n: int, big: bool) -> None:
    from fairseq2.gang import create_parallel_gangs

    sim = run_ranks(n, lambda r, gangs: gloo_programs(gangs, big), tp_size=n)

    def real(r: int, root: Any) -> list:
        return gloo_programs(create_parallel_gangs(root, tp_size=n), big)

    got = run_gloo(n, real, key="gloo")
    for r in range(n):
        if len(sim[r]) != len(got[r]):
            raise Violation("conformance", f"{n} processes: different number of results with gloo")
        for (cfg, a), (cfg2, b) in zip(sim[r], got[r]):
            assert cfg == cfg2
            for x, y in zip(a, b):
                if not close(y, x, 1e-9):
                    raise Violation("conformance", f"{cfg}: gloo and the simulated gang disagree with {n} processes")
            rep.count("traces_replayed_with_gloo")


def check(rep: Report) -> None:
    big = rep.tier == "thorough"
    rep.cov["rule"] = (
        "for each number of tensor parallel processes: every op x shape x dimension x gradient layout, every layer "
        "configuration and padding index, every block and model configuration; each compared with its unsharded twin "
        "(initialization, outputs, input and parameter gradients, updates over several steps)"
    )
    jobs: list[Callable[[Report], None]] = [lambda r: check_ops(r, big)]
    for n in (1, 2, 3, 4):
        jobs.append(lambda r, n=n: check_layers(r, n, big))
    for n in (2, 3, 4) if big else (2, 3):
        jobs.append(lambda r, n=n: check_blocks(r, n, big))
        jobs.append(lambda r, n=n: check_models(r, n, big))
    for n in (2, 3):
        jobs.append(lambda r, n=n: check_gloo(r, n, big))
    run_jobs(rep, jobs)
