"""B01: padding, packing and batch composition never change a sequence's result."""

from __future__ import annotations

import itertools
import math
import sys
import types
from typing import Any, Callable

import torch
from torch import Tensor


def _fake_flash(q: Tensor, k: Tensor, v: Tensor, window: tuple[int, int], causal: bool) -> Tensor:
    """(S, H, K) attention as documented by flash-attn (bottom-right aligned)."""
    s, t = q.shape[0], k.shape[0]
    left, right = window
    if causal:
        right = 0
    i = torch.arange(s)[:, None] + (t - s)
    j = torch.arange(t)[None, :]
    ok = torch.ones((s, t), dtype=torch.bool)
    if left >= 0:
        ok &= j >= i - left
    if right >= 0:
        ok &= j <= i + right
    w = torch.einsum("shk,thk->hst", q, k) * q.shape[-1] ** -0.5
    w = w.masked_fill(~ok, -torch.inf).softmax(-1)
    return torch.einsum("hst,thv->shv", w, v)


def flash_attn_func(q: Tensor, k: Tensor, v: Tensor, dropout_p: float = 0.0, softmax_scale: Any = None, causal: bool = False,
                    window_size: tuple = (-1, -1), **kw: Any) -> Tensor:
    return torch.stack([_fake_flash(a, b, c, window_size, causal) for a, b, c in zip(q, k, v)])


def flash_attn_varlen_func(q: Tensor, k: Tensor, v: Tensor, cu_q: Tensor, cu_k: Tensor, max_q: int, max_k: int, dropout_p: float = 0.0,
                           softmax_scale: Any = None, causal: bool = False, window_size: tuple = (-1, -1), **kw: Any) -> Tensor:
    out = torch.zeros_like(q)
    for a, b, c, d in zip(cu_q[:-1].tolist(), cu_q[1:].tolist(), cu_k[:-1].tolist(), cu_k[1:].tolist()):
        assert b - a <= max_q and d - c <= max_k
        out[a:b] = _fake_flash(q[a:b], k[c:d], v[c:d], window_size, causal)
    return out


from checks.nn_common import H, HD, M, V, allowed, lm_models, make_bias, make_mha, make_sdpa, randomize, seq2seq_models
from mc.par import run_jobs
from mc.report import Report, Violation

def _install_flash() -> None:
    """Makes Flash2SDPA use stand-ins for the CUDA kernels, which cannot run here."""
    import importlib

    import fairseq2.models.transformer.sdpa.flash2 as flash2

    mod = types.ModuleType("flash_attn")
    mod.flash_attn_func = flash_attn_func  # type: ignore[attr-defined]
    mod.flash_attn_varlen_func = flash_attn_varlen_func  # type: ignore[attr-defined]
    old = sys.modules.get("flash_attn")
    sys.modules["flash_attn"] = mod
    try:
        importlib.reload(flash2)
    finally:
        if old is None:
            del sys.modules["flash_attn"]
        else:
            sys.modules["flash_attn"] = old


_install_flash()

LEVEL = "model_checking"

TOL = 2e-4
GARBAGE = 40.0


def near(a: Tensor, b: Tensor, tol: float = TOL) -> bool:
    return a.shape == b.shape and bool(torch.isfinite(a).all()) and bool(((a - b).abs() <= tol * (1 + b.abs())).all())


def diff(a: Tensor, b: Tensor) -> str:
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)} != {tuple(b.shape)}"
    return f"max difference {(a - b).abs().max().item():.3g}"


# ---------------------------------------------------------------- reference


def reference(m: Any, impl: str, kind: Any, x: Tensor, y: Tensor) -> Tensor:
    """Attention of one sequence, position by position, from the definition."""
    m = m.double()
    x, y = x.double(), y.double()
    q = torch.nn.functional.linear(x, m.q_proj.weight, m.q_proj.bias).unflatten(-1, (H, -1))
    k = torch.nn.functional.linear(y, m.k_proj.weight, m.k_proj.bias).unflatten(-1, (-1, HD))
    v = torch.nn.functional.linear(y, m.v_proj.weight, m.v_proj.bias).unflatten(-1, (-1, HD))
    g = H // k.shape[1]
    d = y.shape[0] - x.shape[0] if kind != "identity" else 0
    out = torch.zeros((x.shape[0], H, HD), dtype=torch.float64)
    sdpa = m.sdpa
    if impl == "relative":
        def pe(p: int) -> Tensor:
            f = torch.exp(torch.arange(0, M, 2, dtype=torch.float64) * -math.log(10000.0) / M) * p
            r = torch.zeros(M, dtype=torch.float64)
            r[0::2], r[1::2] = f.sin(), f.cos()
            return (r @ sdpa.r_proj.weight.T).view(H, HD)
    for h in range(H):
        for i in range(x.shape[0]):
            scores, vals = [], []
            for j in range(y.shape[0]):
                if not allowed(kind, i + d, j):
                    continue
                qq, kk, vv = q[i, h], k[j, h // g], v[j, h // g]
                scale = 0.7 if impl.endswith("scaled") else HD**-0.5
                if impl == "relative":
                    s = ((qq + sdpa.u_bias[h]) @ kk + (qq + sdpa.v_bias[h]) @ pe(i - j)[h]) * scale
                else:
                    s = qq @ kk * scale
                if impl == "softcap":
                    s = 2.0 * torch.tanh(s / 2.0)
                if impl == "shaw":
                    rel = max(-2, min(1, j - i - d)) + 2
                    s = s + qq @ sdpa.rel_k_embed.weight[rel] * scale
                    vv = vv + sdpa.rel_v_embed.weight[rel]
                if kind == "alibi":
                    s = s + 2 ** (-8 / H * (h + 1)) * (j - (i + d))
                scores.append(s)
                vals.append(vv)
            w = torch.stack(scores).softmax(0)
            out[i, h] = (w[:, None] * torch.stack(vals)).sum(0)
    r = torch.nn.functional.linear(out.flatten(-2), m.output_proj.weight, m.output_proj.bias)
    m.float()
    return r.detach().float()


# ---------------------------------------------------------------- attention


def lens_vectors(maxn: int, vals: tuple[int, ...]) -> list[tuple[int, ...]]:
    return [l for n in range(1, maxn + 1) for l in itertools.product(vals, repeat=n)]


def pad_batch(rows: list[Tensor], width: int, fill: Any) -> Tensor:
    out = rows[0].new_full((len(rows), width) + tuple(rows[0].shape[1:]), 0)
    if isinstance(fill, float):
        # Garbage that differs from position to position.
        n = torch.arange(out.numel(), dtype=torch.float32).view(out.shape)
        out = (fill * torch.cos(n)).to(out.dtype)
    else:
        out.fill_(fill)
    for i, r in enumerate(rows):
        out[i, : len(r)] = r
    return out


def pack_batch(rows: list[Tensor], width: int, fill: Any) -> Tensor:
    out = pad_batch([rows[0]], width, fill)[0]
    p = 0
    for r in rows:
        out[p : p + len(r)] = r
        p += len(r)
    return out


def self_attn_configs(thorough: bool) -> list[dict]:
    out: list[dict] = []
    biases: list[Any] = ["identity", "causal", "alibi", ("window", 1), ("window", 2), ("window", 3), ("chunk", 1), ("chunk", 2), ("chunk", 3)]
    for impl in ("torch", "torch-scaled", "naive", "naive-scaled", "softcap", "shaw", "flash2"):
        for b in biases:
            if impl == "flash2" and (b == "alibi" or b[0] == "chunk"):
                continue
            out.append(dict(impl=impl, bias=b, pos="none"))
    out.append(dict(impl="relative", bias="identity", pos="none", kv_heads=2))
    for pos in ("rotary", "reference-rotary", "dual-rotary", "yarn", "sinusoidal", "learned"):
        out.append(dict(impl="torch", bias="causal", pos=pos, kv_heads=2))
        out.append(dict(impl="naive", bias="identity", pos=pos))
    out.append(dict(impl="torch", bias="causal", pos="rotary", olmo=True))
    return out


PACKABLE = ("torch", "torch-scaled", "naive", "naive-scaled", "softcap", "flash2")
PADDABLE = ("torch", "torch-scaled", "naive", "naive-scaled", "softcap", "shaw", "relative")


def call_mha(m: Any, x: Tensor, lens: Any, y: Tensor | None, ylens: Any, packed: bool = False) -> Tensor:
    from fairseq2.models.transformer import AttentionBiasCache
    from fairseq2.nn import BatchLayout

    lx = BatchLayout.of(x, lens, packed=packed)
    if y is None:
        return m(x, lx, x, lx, x, AttentionBiasCache())
    ly = BatchLayout.of(y, ylens, packed=packed)
    return m(x, lx, y, ly, y, AttentionBiasCache())


def self_attn_job(cfgs: list[dict]) -> Callable[[Report], None]:
    def run(rep: Report, cfg: dict) -> None:
        impl, kind = cfg["impl"], cfg["bias"]
        name = ",".join(str(v) for v in cfg.values())
        m = make_mha(**cfg)
        W = 6 if rep.thorough else 5
        X = torch.randn((3, W, M), generator=torch.Generator().manual_seed(5))
        ref: dict[tuple[int, int], Tensor] = {}
        for i in range(3):
            for n in range(1, W + 1):
                x = X[i : i + 1, :n]
                alone = call_mha(m, x, None, None, None)[0]
                if cfg["pos"] == "none":
                    exp = reference(m, impl, kind, x[0], x[0])
                    rep.count("transitions")
                    if not near(alone, exp):
                        raise Violation(f"attn[{name}]:reference", f"attention[{name}] of a sequence of length {n} differs from its "
                                        f"definition ({diff(alone, exp)})")
                ref[i, n] = alone
        for lens in lens_vectors(3, tuple(range(1, W + 1))):
            rows = [X[i, :n] for i, n in enumerate(lens)]
            for extra in (0, 1):
                for packed in (False, True):
                    if impl not in (PACKABLE if packed else PADDABLE):
                        if packed or extra or len(set(lens)) > 1:
                            continue
                    if impl == "flash2" and packed and extra:
                        continue
                    if packed:
                        b = pack_batch(rows, sum(lens) + extra, GARBAGE)
                    else:
                        b = pad_batch(rows, max(lens) + extra, GARBAGE)
                    what = f"attention[{name}], lengths {lens}, width {b.shape[0 if packed else 1]}, {'packed' if packed else 'padded'}"
                    rep.count("transitions")
                    rep.case((name, lens, extra, packed))
                    try:
                        out = call_mha(m, b, list(lens), None, None, packed)
                    except Exception as ex:
                        raise Violation(f"attn[{name}]:{'packed' if packed else 'padded'}:raised", f"{what}: raised {ex!r}") from None
                    p = 0
                    for i, n in enumerate(lens):
                        got = out[p : p + n] if packed else out[i, :n]
                        p += n
                        if not near(got, ref[i, n]):
                            raise Violation(f"attn[{name}]:{'packed' if packed else 'padded'}",
                                            f"{what}: sequence {i} differs from the one computed alone ({diff(got, ref[i, n])})")
                    if not torch.isfinite(out).all():
                        raise Violation(f"attn[{name}]:nonfinite", f"{what}: not finite at padding (and would spread in the next layer)")

    def job(rep: Report) -> None:
        with torch.no_grad():
            for cfg in cfgs:
                rep.count("configurations")
                try:
                    run(rep, cfg)
                except Violation as v:
                    rep.violate(v.key, v.msg, v.detail)
    return job


def cross_attn_job(rep: Report) -> None:
    def run(cfg: dict) -> None:
        impl, kind = cfg["impl"], cfg["bias"]
        name = ",".join(str(v) for v in cfg.values())
        m = make_mha(**cfg)
        g = torch.Generator().manual_seed(5)
        X, Y = torch.randn((3, 4, M), generator=g), torch.randn((3, 4, M), generator=g)
        ref: dict[tuple[int, int, int], Tensor] = {}
        for i in range(2):
            for n in (1, 2, 3):
                for k in (1, 2, 3):
                    if kind == "causal" and n > k:
                        continue
                    alone = call_mha(m, X[i : i + 1, :n], None, Y[i : i + 1, :k], None)[0]
                    exp = reference(m, impl, kind, X[i, :n], Y[i, :k])
                    if not near(alone, exp):
                        raise Violation(f"cross[{name}]:reference", f"cross attention[{name}] with {n} queries and {k} keys differs from "
                                        f"its definition ({diff(alone, exp)})")
                    ref[i, n, k] = alone
        for N in (1, 2):
            for ql in itertools.product((1, 2, 3), repeat=N):
                for kl in itertools.product((1, 2, 3), repeat=N):
                    if kind == "causal" and any(a > b for a, b in zip(ql, kl)):
                        continue
                    for qe, ke, packed in itertools.product((0, 1), (0, 1), (False, True)):
                        if packed and impl not in PACKABLE:
                            continue
                        xr = [X[i, :n] for i, n in enumerate(ql)]
                        yr = [Y[i, :n] for i, n in enumerate(kl)]
                        if packed:
                            if impl == "flash2" and (qe or ke):
                                continue
                            x, y = pack_batch(xr, sum(ql) + qe, GARBAGE), pack_batch(yr, sum(kl) + ke, GARBAGE)
                        else:
                            if impl == "flash2" and (qe or ke or len(set(ql)) > 1 or len(set(kl)) > 1):
                                continue
                            x, y = pad_batch(xr, max(ql) + qe, GARBAGE), pad_batch(yr, max(kl) + ke, GARBAGE)
                        what = (f"cross attention[{name}], query lengths {ql} (+{qe} padding), key lengths {kl} (+{ke} padding), "
                                f"{'packed' if packed else 'padded'}")
                        rep.count("transitions")
                        rep.case((name, ql, kl, qe, ke, packed))
                        try:
                            out = call_mha(m, x, list(ql), y, list(kl), packed)
                        except Exception as ex:
                            raise Violation(f"cross[{name}]:raised", f"{what}: raised {ex!r}") from None
                        p = 0
                        for i, n in enumerate(ql):
                            got = out[p : p + n] if packed else out[i, :n]
                            p += n
                            if not near(got, ref[i, n, kl[i]]):
                                raise Violation(f"cross[{name}]", f"{what}: sequence {i} differs from the one computed alone "
                                                f"({diff(got, ref[i, n, kl[i]])})")
                        if not torch.isfinite(out).all():
                            raise Violation(f"cross[{name}]:nonfinite", f"{what}: not finite at padding (and would spread in the next layer)")

    with torch.no_grad():
        for impl in ("torch", "naive", "softcap", "flash2"):
            for kind in ("identity", "causal"):
                rep.count("configurations")
                try:
                    run(dict(impl=impl, bias=kind, pos="none"))
                except Violation as v:
                    rep.violate(v.key, v.msg, v.detail)


# ------------------------------------------------------------------- models


class Net:
    """A model seen as a function of one batch of sequences."""

    def __init__(self, model: Any, rows: Callable[[int, int], Any], fn: Callable, out_len: Callable[[int], int], *,
                 packed: bool, causal: bool, fill: Any, lens: tuple[int, ...]) -> None:
        self.model, self.rows, self.fn, self.out_len = model, rows, fn, out_len
        self.packed, self.causal, self.fill, self.lens = packed, causal, fill, lens


def lm_net(make: Callable[[], Any], packed: bool = True) -> Net:
    from fairseq2.nn import BatchLayout

    m = randomize(make())
    X = torch.randint(2, V - 1, (3, 16), generator=torch.Generator().manual_seed(5))
    return Net(m, lambda i, n: X[i, :n], lambda b, lens, packed: m(b, BatchLayout.of(b, lens, packed=packed)), lambda n: n,
               packed=packed, causal=True, fill=2, lens=(1, 2, 4, 5))


def encoder_net(enc: Any, packed: bool) -> Net:
    from fairseq2.nn import BatchLayout

    X = torch.randn((3, 16, M), generator=torch.Generator().manual_seed(5))
    return Net(enc, lambda i, n: X[i, :n], lambda b, lens, packed: enc(b, BatchLayout.of(b, lens, packed=packed)), lambda n: n,
               packed=packed, causal=False, fill=GARBAGE, lens=(1, 2, 4, 5))


def wav2vec2_net(**kw: Any) -> Net:
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.wav2vec2 import Wav2Vec2EncoderConfig
    from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
    from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model
    from fairseq2.nn import BatchLayout

    norm = kw.pop("norm", "POST")
    e = dict(model_dim=M, max_seq_len=64, feature_dim=12, feature_extractor_layer_descs=[(12, 4, 2), (12, 3, 2)], pos_conv_kernel_size=5,
             feature_extractor_layer_norm_convs=True, num_pos_conv_groups=2, num_encoder_layers=2, num_encoder_attn_heads=2,
             ffn_inner_dim=24, dropout_p=0.0, attn_dropout_p=0.0, layer_drop_p=0.0, feature_grad_scale=1.0, norm_order=TransformerNormOrder[norm])
    e.update(kw)
    m = randomize(create_wav2vec2_asr_model(Wav2Vec2AsrConfig(encoder_config=Wav2Vec2EncoderConfig(**e), target_vocab_size=V,
                                                              use_masking=False)))
    g = torch.Generator().manual_seed(5)
    fb = e.get("use_fbank")
    X = torch.randn((3, 40, 6), generator=g) if fb else torch.randn((3, 40), generator=g)

    def fn(b: Tensor, lens: Any, packed: bool) -> Tensor:
        out, lay = m(b, BatchLayout.of(b, lens))
        want = [out_len(n) for n in (lens or [b.shape[1]] * len(b))]
        if list(lay.seq_lens) != want and lens is not None:
            raise Violation("wav2vec2:layout", f"sequence lengths {lens} become {list(lay.seq_lens)}, expected {want}")
        return out

    def out_len(n: int) -> int:
        return n // 2 if fb else (((n - 4) // 2 + 1) - 3) // 2 + 1

    return Net(m, lambda i, n: X[i, :n], fn, out_len, packed=False, causal=False, fill=GARBAGE,
               lens=(2, 3, 5, 8) if fb else (8, 11, 14, 17))


def nets() -> dict[str, Callable[[], Net]]:
    out: dict[str, Callable[[], Net]] = {}
    for n, f in lm_models().items():
        out[n] = lambda f=f, n=n: lm_net(f, packed=not n.startswith("gemma3n"))
    s = seq2seq_models()
    out["transformer-encoder"] = lambda: encoder_net(randomize(s["nllb"][0]()).encoder, True)
    out["conformer-encoder"] = lambda: encoder_net(randomize(s["s2t-conformer"][0]()).encoder, False)
    out["conformer-encoder-relative"] = lambda: encoder_net(randomize(s["s2t-conformer-relative"][0]()).encoder, False)
    out["wav2vec2-asr"] = lambda: wav2vec2_net()
    out["wav2vec2-asr-pre-norm"] = lambda: wav2vec2_net(norm="PRE", layer_norm_features=False)
    out["wav2vec2-asr-fbank"] = lambda: wav2vec2_net(use_fbank=True, num_fbank_channels=6, fbank_stride=2, sample_fbank_every_k=1)
    out["wav2vec2-asr-conformer"] = lambda: wav2vec2_net(use_fbank=True, num_fbank_channels=6, fbank_stride=2, sample_fbank_every_k=1,
                                                        use_conformer=True, pos_encoder_type="relative", depthwise_conv_kernel_size=3)
    out["wav2vec2-asr-rotary"] = lambda: wav2vec2_net(pos_encoder_type="rotary")
    return out


def weights_for(n: int, shape: tuple) -> Tensor:
    return torch.cos(torch.arange(int(torch.tensor(shape).prod()), dtype=torch.float32) * 0.37 + n).view(shape)


def grads(net: Net, loss: Tensor) -> dict[str, Tensor]:
    net.model.zero_grad(set_to_none=True)
    loss.backward()
    return {k: p.grad.clone() for k, p in net.model.named_parameters() if p.grad is not None}


def net_job(name: str) -> Callable[[Report], None]:
    def run(rep: Report) -> None:
        try:
            net = nets()[name]()
        except ImportError:
            raise
        lens_ok = net.lens
        ref: dict[tuple[int, int], Tensor] = {}
        gref: dict[tuple[int, int], dict[str, Tensor]] = {}
        for i in range(3):
            for n in lens_ok:
                out = net.fn(net.rows(i, n)[None], None, False)[0]
                gref[i, n] = grads(net, (out * weights_for(i, tuple(out.shape))).sum())
                ref[i, n] = out.detach()
                rep.count("transitions")
        if net.causal:
            # What follows a position never changes its output.
            L = max(lens_ok)
            with torch.no_grad():
                for n in range(1, L + 1):
                    a = net.fn(net.rows(0, n)[None], None, False)[0]
                    rep.count("transitions")
                    if not near(ref[0, L][:n], a):
                        raise Violation(f"{name}:causal", f"{name}: outputs at the first {n} positions change when {L - n} more positions "
                                        f"follow ({diff(ref[0, L][:n], a)})")
        for lens in lens_vectors(3, lens_ok):
            rows = [net.rows(i, n) for i, n in enumerate(lens)]
            for extra, packed in itertools.product((0, 3), (False, True)):
                if packed and not net.packed:
                    continue
                b = pack_batch(rows, sum(lens) + extra, net.fill) if packed else pad_batch(rows, max(lens) + extra, net.fill)
                what = f"{name}, lengths {lens}, width {b.shape[0 if packed else 1]}, {'packed' if packed else 'padded'}"
                mode = "packed" if packed else "padded"
                rep.count("transitions")
                rep.case((name, lens, extra, packed))
                try:
                    out = net.fn(b, list(lens), packed)
                except Violation:
                    raise
                except Exception as ex:
                    raise Violation(f"{name}:{mode}:raised", f"{what}: raised {ex!r}") from None
                p = 0
                loss = out.new_zeros(())
                for i, n in enumerate(lens):
                    k = net.out_len(n)
                    got = out[p : p + k] if packed else out[i, :k]
                    p += k
                    if not near(got, ref[i, n]):
                        raise Violation(f"{name}:{mode}", f"{what}: sequence {i} differs from the one computed alone ({diff(got, ref[i, n])})")
                    loss = loss + (got * weights_for(i, tuple(got.shape))).sum()
                gs = grads(net, loss)
                for key in set(gs) | set().union(*(gref[i, n] for i, n in enumerate(lens))):
                    want = sum(gref[i, n].get(key, 0.0) for i, n in enumerate(lens))
                    if not isinstance(want, Tensor):
                        continue
                    have = gs.get(key, torch.zeros_like(want))
                    if not torch.isfinite(have).all() or (have - want).abs().max() > 1e-3 * (1 + want.abs().max()):
                        raise Violation(f"{name}:{mode}:grad", f"{what}: the gradient of {key} differs from the sum of those of the "
                                        f"sequences alone ({diff(have, want)})")

    def job(rep: Report) -> None:
        rep.count("configurations")
        try:
            run(rep)
        except Violation as v:
            rep.violate(v.key, v.msg, v.detail)
    return job


def seq2seq_job(rep: Report) -> None:
    """Encoder-decoder models: padding of source and target, and causality."""
    from fairseq2.nn import BatchLayout

    m = randomize(seq2seq_models()["nllb"][0]())
    g = torch.Generator().manual_seed(5)
    S, T = torch.randint(2, V - 1, (3, 8), generator=g), torch.randint(2, V - 1, (3, 8), generator=g)

    def fn(s: Tensor, sl: Any, t: Tensor, tl: Any) -> Tensor:
        return m(s, BatchLayout.of(s, sl), t, BatchLayout.of(t, tl))

    ref: dict = {}
    with torch.no_grad():
        for i in range(3):
            for a, b in itertools.product((1, 2, 4), repeat=2):
                ref[i, a, b] = fn(S[i : i + 1, :a], None, T[i : i + 1, :b], None)[0]
        for i, a in itertools.product(range(3), (1, 2, 4)):
            for b in (1, 2):
                if not near(ref[i, a, 4][:b], ref[i, a, b]):
                    rep.violate("nllb:causal", f"NLLB: outputs at the first {b} target positions change when more follow")
        for N in (1, 2, 3):
            vals = (1, 2, 4) if N < 3 or rep.thorough else (1, 4)
            for sl in itertools.product(vals, repeat=N):
                for tl in itertools.product(vals, repeat=N):
                    for se, te in itertools.product((0, 2), repeat=2):
                        s = pad_batch([S[i, :n] for i, n in enumerate(sl)], max(sl) + se, 3)
                        t = pad_batch([T[i, :n] for i, n in enumerate(tl)], max(tl) + te, 3)
                        rep.count("transitions")
                        rep.case(("nllb", sl, tl, se, te))
                        out = fn(s, list(sl), t, list(tl))
                        for i in range(N):
                            if not near(out[i, : tl[i]], ref[i, sl[i], tl[i]]):
                                rep.violate("nllb:padded", f"NLLB, source lengths {sl} (+{se}), target lengths {tl} (+{te}): sequence {i} "
                                            f"differs from the one computed alone ({diff(out[i, : tl[i]], ref[i, sl[i], tl[i]])})")


# ------------------------------------------------------------- batch layout


def layout_job(rep: Report) -> None:
    """BatchLayout against its definition, for every length vector."""
    from fairseq2.nn import BatchLayout

    W = 4
    for n in (1, 2, 3):
        for lens in itertools.product(range(0, W + 2), repeat=n):
            for packed in (False, True):
                for width in range(1, 9 if packed else W + 1):
                    valid = all(l >= 1 for l in lens) and (sum(lens) <= width if packed else max(lens) <= width)
                    t = torch.zeros((width,) if packed else (n, width))
                    rep.count("transitions")
                    try:
                        lay = BatchLayout.of(t, list(lens), packed=packed)
                    except ValueError:
                        if valid:
                            rep.violate("layout:rejected", f"BatchLayout rejects lengths {lens} of width {width} (packed={packed})")
                        continue
                    rep.case((lens, width, packed))
                    if not valid:
                        rep.violate("layout:accepted", f"BatchLayout accepts lengths {lens} of width {width} (packed={packed})")
                        continue
                    if packed:
                        pos = [i for l in lens for i in range(l)]
                        pos += [-1] * (width - len(pos))
                        begin = [sum(lens[:i]) for i in range(n + 1)]
                        padded = sum(lens) < width
                    else:
                        pos = [[i if i < l else -1 for i in range(width)] for l in lens]  # type: ignore[misc]
                        begin = [i * width for i in range(n + 1)]
                        padded = any(l < width for l in lens)
                    got = (lay.position_indices.tolist(), list(lay.seq_lens), lay.seq_lens_pt.tolist(), list(lay.seq_begin_indices),
                           lay.seq_begin_indices_pt.tolist(), lay.min_seq_len, lay.max_seq_len, lay.padded, lay.packed, lay.width)
                    exp = (pos, list(lens), list(lens), begin, begin, min(lens), max(lens), padded, packed, width)
                    if got != exp:
                        rep.violate("layout:wrong", f"BatchLayout of lengths {lens}, width {width}, packed={packed}: {got} != {exp}")


def check(rep: Report) -> None:
    torch.set_num_threads(1)
    cfgs = self_attn_configs(rep.thorough)
    jobs: list = [net_job(n) for n in nets()]
    jobs += [cross_attn_job, seq2seq_job, layout_job]
    jobs += [self_attn_job(cfgs[i::12]) for i in range(12)]
    run_jobs(rep, jobs)
    rep.counters["states"] = len(rep._distinct)
    rep.part("bounds", batch="<= 3 sequences, every length vector up to 4 (attention) or over 3 lengths (models), with and without "
             "further padding, padded and packed")
    rep.assumptions.append("float32 results within 2e-4 are equal; gradients within 1e-3 of the largest element")
    rep.assumptions.append("FlashAttention kernels are replaced by a reference of their documented behaviour")
