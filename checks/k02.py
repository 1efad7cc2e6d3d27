"""K02: models exchanged with other libraries keep their weights and behaviour."""

from __future__ import annotations

import itertools
import json
import re
import shutil
import tempfile
from dataclasses import fields
from pathlib import Path
from typing import Any, Callable

from mc import boot

boot.init()

import torch
from torch import Tensor

from mc.par import run_jobs
from mc.report import Report, Violation

LEVEL = "model_checking"

TOL = 3e-3  # logits have a magnitude of about 5, single precision

_hf: Any = None


def hf() -> Any:
    global _hf
    if _hf is None:
        import transformers

        transformers.logging.set_verbosity_error()
        transformers.utils.logging.disable_progress_bar()
        _hf = transformers
    return _hf


# ------------------------------------------------------------------- helpers


def randomize(model: torch.nn.Module, seed: int = 0) -> None:
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            r = torch.randn(p.shape, generator=g)
            p.copy_(r * 0.25 if p.dim() > 1 else 1 + 0.2 * r)
        for n, b in model.named_buffers():
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g))
            elif n.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)


def snapshot(sd: dict[str, Any]) -> dict[str, Tensor]:
    return {k: v.detach().clone() for k, v in sd.items()}


def load_into(model: torch.nn.Module, sd: dict[str, Any], key: str, what: str) -> None:
    """Loads the converted state as the checkpoint loader does."""
    from fairseq2.models.utils.checkpoint import ModelCheckpointMismatchError, set_model_state
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

    try:
        set_model_state(model, list(sd.items()), NOOP_PROGRESS_REPORTER)
    except ModelCheckpointMismatchError as ex:
        raise Violation(key, f"{what}: the converted checkpoint does not fit the model: {str(ex)[:300]}") from None


def same_tensors(a: dict[str, Any], b: dict[str, Tensor], key: str, what: str) -> None:
    if set(a) != set(b):
        raise Violation(
            key,
            f"{what}: keys differ, only in result {sorted(set(a) - set(b))[:4]}, "
            f"only in original {sorted(set(b) - set(a))[:4]}",
        )
    for k in b:
        if not (a[k].shape == b[k].shape and torch.equal(a[k], b[k])):
            raise Violation(key, f"{what}: tensor {k} differs")


def need_close(a: Tensor, b: Tensor, key: str, what: str, tol: float = TOL) -> None:
    if a.shape != b.shape:
        raise Violation(key, f"{what}: output shapes {tuple(a.shape)} and {tuple(b.shape)}")
    d = (a - b).abs().max().item()
    if not d <= tol:
        raise Violation(key, f"{what}: outputs differ by {d:.3g} (magnitude {b.abs().max().item():.3g})")


def nl(cfg: Any) -> str:
    """Describes a configuration by what differs from the default."""
    d = type(cfg)()
    out = []
    for f in fields(cfg):
        v = getattr(cfg, f.name)
        if v != getattr(d, f.name):
            out.append(f"{f.name}={v}")
    return f"{type(cfg).__name__}({', '.join(out)})"


class ScratchDir:
    def __enter__(self) -> Path:
        self.d = tempfile.mkdtemp(prefix="k02_")
        return Path(self.d)

    def __exit__(self, *a: Any) -> None:
        shutil.rmtree(self.d, ignore_errors=True)


def read_tensors(d: Path) -> dict[str, Tensor]:
    from safetensors.torch import load_file

    out: dict[str, Tensor] = {}
    for f in sorted(d.glob("*.safetensors")):
        out.update(load_file(f))
    return out


# ------------------------------------------------------------ model families


def family(name: str) -> Any:
    """(create, to_hg(state, config) -> (state, HuggingFaceConfig), convert)"""
    from fairseq2.models.hg import HuggingFaceConfig, get_hugging_face_converter

    if name == "gemma3n":
        from fairseq2.models.gemma3n.factory import create_gemma3n_model
        from fairseq2.models.gemma3n.interop import convert_gemma3n_state_dict, export_gemma3n

        def to_hg(sd: dict[str, object], cfg: Any) -> Any:
            ex = export_gemma3n(sd, cfg)
            return ex.state_dict, HuggingFaceConfig(ex.config, ex.config_kls_name, ex.arch)

        return create_gemma3n_model, to_hg, convert_gemma3n_state_dict

    if name == "llama":
        from fairseq2.models.llama.factory import create_llama_model as create
        from fairseq2.models.llama.interop import convert_llama_state_dict as convert
    elif name == "qwen":
        from fairseq2.models.qwen.factory import create_qwen_model as create
        from fairseq2.models.qwen.interop import convert_qwen_state_dict as convert
    else:
        from fairseq2.models.olmo.factory import create_olmo_model as create
        from fairseq2.models.olmo.interop import convert_olmo_state_dict as convert

    conv = get_hugging_face_converter(name)

    def to_hg2(sd: dict[str, object], cfg: Any) -> Any:
        hc = conv.to_hg_config(cfg)
        return conv.to_hg_state_dict(sd, cfg), hc

    return create, to_hg2, convert


def native(name: str, arch: str, d: Path, what: str) -> tuple[Any, dict[str, Tensor]]:
    """Loads the exported model with Transformers."""
    t = hf()
    if name == "gemma3n":
        # The vision tower needs a library which is not available; fairseq2
        # supports the text and audio parts only.
        hc = t.Gemma3nConfig.from_pretrained(d)
        tensors = read_tensors(d)
        # Transformers stores tied weights once, and loads them from either.
        a, b = "model.language_model.embed_tokens.weight", "lm_head.weight"
        if hc.text_config.tie_word_embeddings:
            if a not in tensors and b in tensors:
                tensors[a] = tensors[b]
        m = t.Gemma3nForCausalLM(hc.text_config).float().eval()
        text = {k.replace("model.language_model.", "model."): v for k, v in tensors.items() if "audio" not in k}
        info = m.load_state_dict(text, strict=False)
        miss = [k for k in info.missing_keys if k != "lm_head.weight" or not hc.text_config.tie_word_embeddings]
        shared = hc.text_config.num_hidden_layers - hc.text_config.num_kv_shared_layers
        unexp = []
        for k in info.unexpected_keys:
            # Weights that are not used if keys and values are shared
            g = re.match(r"model\.layers\.(\d+)\.self_attn\.(k_proj|v_proj|k_norm)\.", k)
            if not (g and int(g.group(1)) >= shared):
                unexp.append(k)
        if miss or unexp:
            raise Violation("gemma3n-export-keys", f"{what}: Transformers misses {miss[:3]} and does not know {unexp[:3]}")
        return m, tensors
    kls = getattr(t, arch)
    try:
        m, info = kls.from_pretrained(d, output_loading_info=True, dtype=torch.float32)
    except Exception as ex:
        raise Violation(
            f"{name}-export-load", f"{what}: Transformers cannot load the exported model: {str(ex)[:300]}"
        ) from None
    bad = {k: sorted(map(str, v))[:4] for k, v in info.items() if v}
    if bad:
        raise Violation(f"{name}-export-keys", f"{what}: exported parameters do not fit: {bad}")
    return m.eval(), read_tensors(d)


def run_fs2(model: Any, x: Tensor, lens: list[int] | None) -> Tensor:
    from fairseq2.nn import BatchLayout

    with torch.no_grad():
        return model(x, BatchLayout.of(x, lens))


def export_case(rep: Report, name: str, cfg: Any, seed: int) -> None:
    from fairseq2.models.hg.converter import save_hugging_face_model

    what = nl(cfg)
    create, to_hg, convert = family(name)
    model = create(cfg).eval()
    randomize(model, seed)
    sd = model.state_dict()
    before = snapshot(sd)
    keys = list(sd)
    hg_sd, hg_cfg = to_hg(sd, cfg)
    if list(sd) != keys or any(not torch.equal(sd[k], before[k]) for k in keys):
        bad = [k for k in keys if k not in sd or not torch.equal(sd[k], before[k])]
        raise Violation(f"{name}-export-input", f"{what}: exporting changed the caller's state dict: {bad[:3]}")
    with ScratchDir() as d:
        try:
            save_hugging_face_model(d, hg_sd, hg_cfg)
        except Exception as ex:
            raise Violation(f"{name}-export", f"{what}: export failed: {ex!r:.300}") from None
        arch = hg_cfg.arch if isinstance(hg_cfg.arch, str) else hg_cfg.arch[0]
        if json.loads(d.joinpath("config.json").read_text()).get("architectures") != [arch]:
            raise Violation(f"{name}-export-arch", f"{what}: architectures of the exported configuration")
        m, tensors = native(name, arch, d, what)
    v = min(cfg.vocab_size, 60)
    g = torch.Generator().manual_seed(7)
    x = torch.randint(2, v, (2, 24), generator=g)
    if name == "gemma3n":
        x = x % 50 + 2  # Not the tokens of other modalities
    with torch.no_grad():
        want = m(x).logits
    got = run_fs2(model, x, None)
    need_close(got, want, f"{name}-logits", f"{what}: logits of fairseq2 and of the exported model")
    # With padding, the valid positions must not change.
    lens = [24, 9]
    got = run_fs2(model, x, lens)
    for i, n in enumerate(lens):
        need_close(got[i, :n], want[i, :n], f"{name}-logits-pad", f"{what}: logits of a padded batch")
    # ... and back
    again = {k: t.clone() for k, t in tensors.items()}
    back = convert(again, cfg)
    same_tensors(back, before, f"{name}-roundtrip", f"{what}: fairseq2 -> Hugging Face -> fairseq2")
    m2 = create(cfg).eval()
    randomize(m2, seed + 1)
    load_into(m2, back, f"{name}-import", what)
    need_close(run_fs2(m2, x, None), want, f"{name}-import-logits", f"{what}: logits of the re-imported model")
    # State already in fairseq2 format stays as it is.
    same_tensors(convert(snapshot(before), cfg), before, f"{name}-native", f"{what}: fairseq2 state dict converted")
    rep.case((name, what))
    rep.count("transitions", 6)
    rep.count("exported_models")


# ---- bounded configurations


def llama_configs(thorough: bool) -> list[Any]:
    from fairseq2.models.llama.config import LLaMAConfig, LLaMARoPEScaleConfig

    base: dict[str, Any] = dict(model_dim=32, max_seq_len=64, vocab_size=64, num_layers=2, num_attn_heads=4,
                                num_key_value_heads=2, ffn_inner_dim=128, ffn_inner_dim_multiple_of=8)
    heads = [(4, 4), (4, 2), (4, 1), (2, 1), (1, 1), (8, 2)]
    ffn = [(i, s, m, o) for i in (96, 100, 128) for s in (2 / 3, 1.0, 0.5) for m in (1.0, 1.3, 1.5) for o in (1, 8, 32)]
    scales = [
        None,
        LLaMARoPEScaleConfig(8.0, (1.0, 4.0), 16),
        LLaMARoPEScaleConfig(32.0, (1.0, 4.0), 16),
        LLaMARoPEScaleConfig(4.0, (0.5, 2.0), 32),
        LLaMARoPEScaleConfig(2.0, (1.0, 8.0), 64),
    ]
    thetas = (10_000.0, 500_000.0, 100.0)
    out = []

    def add(**kw: Any) -> None:
        c = dict(base, **kw)
        if c.get("tied_embeddings"):
            c["shard_embed_dim"] = False
        out.append(LLaMAConfig(**c))

    for h, k in heads:
        for tied in (False, True):
            for n in (1, 2):
                add(num_attn_heads=h, num_key_value_heads=k, tied_embeddings=tied, num_layers=n)
    add(num_layers=12)  # Layer numbers with two digits
    for i, s, m, o in ffn:
        add(ffn_inner_dim=i, ffn_inner_dim_scale=s, ffn_inner_dim_multiplier=m, ffn_inner_dim_multiple_of=o, num_layers=1)
    for th in thetas:
        for sc in scales:
            kw: dict[str, Any] = dict(rope_theta=th)
            if sc is not None:
                kw.update(use_scaled_rope=True, rope_scale=sc)
            add(**kw)
    add(pad_idx=3)
    add(max_seq_len=24)
    add(max_seq_len=24, use_scaled_rope=True, rope_scale=scales[-1])
    add(vocab_size=32_000, num_layers=1)
    add(model_dim=48, num_attn_heads=4, num_key_value_heads=4)
    if thorough:
        for (h, k), th, sc, tied, (i, s, m, o) in itertools.product(heads, thetas, scales, (False, True), ffn[::5]):
            kw = dict(rope_theta=th, num_attn_heads=h, num_key_value_heads=k, tied_embeddings=tied, ffn_inner_dim=i,
                      ffn_inner_dim_scale=s, ffn_inner_dim_multiplier=m, ffn_inner_dim_multiple_of=o)
            if sc is not None:
                kw.update(use_scaled_rope=True, rope_scale=sc)
            add(**kw)
    return out


def qwen_configs(thorough: bool) -> list[Any]:
    from fairseq2.models.qwen.config import QwenConfig

    base: dict[str, Any] = dict(model_dim=32, max_seq_len=64, vocab_size=64, num_layers=2, num_attn_heads=4,
                                num_key_value_heads=2, ffn_inner_dim=48)
    kinds: list[dict[str, Any]] = [dict(), dict(qkv_proj_bias=False, q_norm=True, k_norm=True)]
    out = []
    for kind in kinds:
        v3 = bool(kind)
        for (h, k), tied in itertools.product([(4, 4), (4, 2), (4, 1), (2, 1), (8, 2)], (False, True)):
            for hd in (None, 4, 16) if v3 else (None,):
                for th in (1_000_000.0, 100.0) if not thorough else (1_000_000.0, 10_000.0, 100.0):
                    for n in (1, 2) if not thorough else (1, 2, 3):
                        out.append(QwenConfig(**dict(base, **kind, num_attn_heads=h, num_key_value_heads=k,
                                                     tied_embeddings=tied, head_dim=hd, rope_theta=th, num_layers=n)))
        out.append(QwenConfig(**dict(base, **kind, num_layers=12)))
        out.append(QwenConfig(**dict(base, **kind, ffn_inner_dim=100, max_seq_len=24)))
        out.append(QwenConfig(**dict(base, **kind, model_dim=48)))
    return out


def olmo_configs(thorough: bool) -> list[Any]:
    from fairseq2.models.olmo.config import OLMOConfig, YaRNScaleConfig

    base: dict[str, Any] = dict(model_dim=32, max_seq_len=64, vocab_size=64, num_layers=2, num_attn_heads=4,
                                num_key_value_heads=2, ffn_inner_dim=48, pad_idx=0, eos_token_id=1)
    yarns = [
        None,
        YaRNScaleConfig(original_max_seq_len=16, scale_factor=4.0),
        YaRNScaleConfig(original_max_seq_len=8, scale_factor=8.0),
        YaRNScaleConfig(original_max_seq_len=16, scale_factor=4.0, beta_fast=8.0, beta_slow=0.5),
        YaRNScaleConfig(original_max_seq_len=16, scale_factor=4.0, mscale=0.7, mscale_all_dim=1.0),
        YaRNScaleConfig(original_max_seq_len=16, scale_factor=4.0, truncate=False),
        YaRNScaleConfig(original_max_seq_len=32, scale_factor=2.0, mscale=2.0, mscale_all_dim=0.0),
    ]
    full, slide = "full_attention", "sliding_attention"
    kinds: list[dict[str, Any]] = []
    for (h, k), tied, th in itertools.product([(4, 4), (4, 2), (4, 1), (2, 1)], (False, True), (500_000.0, 100.0)):
        kinds.append(dict(num_attn_heads=h, num_key_value_heads=k, tied_embeddings=tied, rope_theta=th))
    for w, th, y in itertools.product((1, 4, 100), (500_000.0, 100.0), yarns):
        kinds.append(dict(sliding_window=w, rope_theta=th, yarn_scale_config=y))
    for n in (1, 2, 3, 4, 5, 8, 9):
        kinds.append(dict(num_layers=n, sliding_window=4))
    for lt in itertools.product((full, slide), repeat=2):
        for y in yarns[:2]:
            kinds.append(dict(sliding_window=4, layer_types=list(lt), yarn_scale_config=y))
    for eps in (1e-6, 1e-5, 0.1):
        kinds.append(dict(rms_norm_eps=eps))
        kinds.append(dict(rms_norm_eps=eps, sliding_window=4))
    kinds.append(dict(num_layers=12))
    if thorough:
        for (h, k), tied, w, th, y in itertools.product([(4, 4), (4, 1)], (False, True), (1, 2, 4, 7), (500_000.0, 100.0), yarns):
            kinds.append(dict(num_attn_heads=h, num_key_value_heads=k, tied_embeddings=tied, sliding_window=w,
                              rope_theta=th, yarn_scale_config=y, num_layers=5))
    return [OLMOConfig(**dict(base, **k)) for k in kinds]


def gemma_configs(thorough: bool) -> list[Any]:
    from fairseq2.models.gemma3n.config import Gemma3nConfig

    base: dict[str, Any] = dict(
        model_dim=32, max_seq_len=64, vocab_size=80, num_layers=10, num_attn_heads=4, num_key_value_heads=2, head_dim=8,
        ffn_inner_dim=48, altup_hidden_dim=48, sliding_window=4, num_kv_shared_layers=2, laurel_rank=4,
        altup_num_inputs=2, vocab_size_per_layer_input=64, hidden_size_per_layer_input=8,
    )
    kinds: list[dict[str, Any]] = [dict()]
    for n, s in [(5, 0), (6, 0), (6, 1), (8, 2), (8, 3), (10, 5), (10, 4), (11, 3), (12, 5), (15, 5)]:
        kinds.append(dict(num_layers=n, num_kv_shared_layers=s))
    for h, k, hd in [(4, 4, 8), (4, 1, 8), (2, 1, 16)]:
        kinds.append(dict(num_attn_heads=h, num_key_value_heads=k, head_dim=hd, num_layers=6, num_kv_shared_layers=1))
    six = dict(num_layers=6, num_kv_shared_layers=1)
    for kw in (
        dict(altup_num_inputs=3), dict(altup_num_inputs=4, altup_active_idx=1), dict(altup_correct_scale=False),
        dict(altup_coef_clip=0.5), dict(laurel_rank=2), dict(sliding_window=1), dict(sliding_window=100),
        dict(rope_theta=100.0), dict(rope_theta_global=100.0), dict(final_logit_soft_cap=2.0), dict(rms_norm_eps=0.1),
        dict(hidden_size_per_layer_input=16), dict(vocab_size_per_layer_input=80), dict(ffn_inner_dim=64, altup_hidden_dim=64),
    ):
        kinds.append(dict(six, **kw))
    if thorough:
        for n, s, w, a in itertools.product((6, 7, 10, 12), (1, 2), (1, 3), (2, 3)):
            if n - s >= 5:
                kinds.append(dict(num_layers=n, num_kv_shared_layers=s, sliding_window=w, altup_num_inputs=a))
    return [Gemma3nConfig(**dict(base, **k)) for k in kinds]


CONFIGS: dict[str, Callable[[bool], list[Any]]] = {
    "llama": llama_configs,
    "qwen": qwen_configs,
    "olmo": olmo_configs,
    "gemma3n": gemma_configs,
}


def job_export(name: str, chunk: int, chunks: int) -> Callable[[Report], None]:
    def job(rep: Report) -> None:
        cfgs = CONFIGS[name](rep.tier == "thorough")
        for i, cfg in enumerate(cfgs):
            if i % chunks != chunk:
                continue
            try:
                export_case(rep, name, cfg, i)
            except Violation as v:
                rep.violate(v.key, v.msg, v.detail)
        if chunk == 0:
            rep.part(f"export-{name}", configurations=len(cfgs))
            rep.sample(f"{name}: {nl(cfgs[0])}")

    return job


# ------------------------------------------------- registered architectures


def registered(fam: str) -> dict[str, Any]:
    """Architecture name -> configuration, from the registered families."""
    from fairseq2.models.family import ModelFamily
    from fairseq2.runtime.dependency import get_dependency_resolver

    f = get_dependency_resolver().resolve(ModelFamily, key=fam)
    return {a: f.maybe_get_arch_config(a) for a in sorted(f.get_archs())}


def job_arch(fam: str) -> Callable[[Report], None]:
    def job(rep: Report) -> None:
        from fairseq2.models.hg.converter import save_hugging_face_model

        t = hf()
        create, to_hg, convert = family(fam)
        for arch, cfg in registered(fam).items():
            what = f"{fam}/{arch}"
            with torch.device("meta"):
                model = create(cfg)
            shapes = {k: tuple(v.shape) for k, v in model.state_dict().items()}
            sd: dict[str, object] = dict(model.state_dict())
            try:
                hg_sd, hc = to_hg(sd, cfg)
                with ScratchDir() as d:
                    kls = getattr(t, hc.kls_name)
                    import huggingface_hub

                    saved = huggingface_hub.save_torch_state_dict
                    huggingface_hub.save_torch_state_dict = lambda *a, **k: None  # type: ignore
                    try:
                        save_hugging_face_model(d, hg_sd, hc)
                    finally:
                        huggingface_hub.save_torch_state_dict = saved  # type: ignore
                    ncfg = kls.from_pretrained(d)
            except Exception as ex:
                rep.violate(f"{fam}-export", f"{what}: export failed: {ex!r:.300}")
                continue
            with torch.device("meta"):
                if fam == "gemma3n":
                    nm = t.Gemma3nForCausalLM(ncfg.text_config)
                    pre = "model.language_model."
                    have = {k.replace(pre, "model."): tuple(v.shape) for k, v in hg_sd.items() if "audio" not in k}
                else:
                    nm = getattr(t, hc.arch)(ncfg)
                    have = {k: tuple(v.shape) for k, v in hg_sd.items()}
            want = {k: tuple(v.shape) for k, v in nm.state_dict().items()}
            if cfg.tied_embeddings:
                want.pop("lm_head.weight", None)
                have.pop("lm_head.weight", None)
            if fam == "gemma3n":
                shared = cfg.num_layers - cfg.num_kv_shared_layers
                have = {
                    k: s for k, s in have.items()
                    if not ((g := re.match(r"model\.layers\.(\d+)\.self_attn\.(k_proj|v_proj|k_norm)\.", k))
                            and int(g.group(1)) >= shared)
                }
            if have != want:
                diff = sorted(set(have.items()) ^ set(want.items()))[:4]
                rep.violate(f"{fam}-arch", f"{what}: exported parameters do not fit the exported configuration: {diff}")
            got = {k: tuple(v.shape) for k, v in convert(dict(hg_sd), cfg).items()}
            if got != shapes:
                diff = sorted(set(got.items()) ^ set(shapes.items()))[:4]
                rep.violate(f"{fam}-arch-import", f"{what}: the exported model cannot be loaded again: {diff}")
            rep.case(("arch", what))
            rep.count("transitions", 2)
            rep.count("architectures")

    return job


# --------------------------------------------------------- reference formats

# Key of the reference checkpoints of LLaMA and Mistral for each fairseq2 key
REF_KEYS = {
    "self_attn.q_proj": "attention.wq", "self_attn.k_proj": "attention.wk", "self_attn.v_proj": "attention.wv",
    "self_attn.output_proj": "attention.wo", "ffn.gate_proj": "feed_forward.w1", "ffn.output_proj": "feed_forward.w2",
    "ffn.inner_proj": "feed_forward.w3", "self_attn_layer_norm": "attention_norm", "ffn_layer_norm": "ffn_norm",
}


def to_reference(sd: dict[str, Tensor]) -> dict[str, Tensor]:
    out = {}
    for k, v in sd.items():
        p = k.split(".")
        if p[0] == "decoder" and p[1] == "layers":
            out[f"layers.{p[2]}.{REF_KEYS['.'.join(p[3:-1])]}.{p[-1]}"] = v
        else:
            out[{"decoder.layer_norm": "norm", "decoder_frontend.embed": "tok_embeddings",
                 "final_proj": "output"}[".".join(p[:-1])] + "." + p[-1]] = v
    return out


def job_reference(rep: Report) -> None:
    from fairseq2.models.llama.config import LLaMAConfig
    from fairseq2.models.llama.factory import create_llama_model
    from fairseq2.models.llama.interop import convert_llama_state_dict, convert_to_ref_llama_state_dict
    from fairseq2.models.mistral.config import MistralConfig
    from fairseq2.models.mistral.factory import create_mistral_model
    from fairseq2.models.mistral.interop import convert_mistral_state_dict

    for layers, tied, wrapped, rope in itertools.product((1, 2, 12), (False, True), (False, True), (False, True)):
        cfg = LLaMAConfig(model_dim=16, max_seq_len=32, vocab_size=32, num_layers=layers, num_attn_heads=2,
                          num_key_value_heads=1, ffn_inner_dim=32, ffn_inner_dim_multiple_of=8, tied_embeddings=tied,
                          shard_embed_dim=not tied)
        m = create_llama_model(cfg)
        randomize(m, layers)
        orig = snapshot(m.state_dict())
        want = to_reference(orig)
        ref: dict[str, Any] = convert_to_ref_llama_state_dict(dict(orig))
        same_tensors(ref, want, "llama-reference-export", f"reference LLaMA format with {layers} layers, tied={tied}")
        src: dict[str, Any] = dict(want)
        if tied:
            src.pop("output.weight")
        if rope:
            src["rope.freqs"] = torch.zeros(4)
        if wrapped:
            src = {"model": src}
        back = convert_llama_state_dict(src, cfg)
        same_tensors(back, orig, "llama-reference-import", f"reference LLaMA checkpoint with {layers} layers, tied={tied}, wrapped={wrapped}, rope.freqs={rope}")
        rep.case(("ref-llama", layers, tied, wrapped, rope))
        rep.count("transitions", 2)

    # Mistral: compared with Transformers, whose layout of queries and keys is
    # that of LLaMA.
    t = hf()
    for (h, k), w, layers in itertools.product([(4, 4), (4, 2), (2, 1)], (2, 5, 100), (1, 2, 12)):
        if layers == 12 and (h, k, w) != (4, 2, 5):
            continue
        mc = MistralConfig(model_dim=16, max_seq_len=32, vocab_size=32, num_layers=layers, num_attn_heads=h,
                           num_key_value_heads=k, ffn_inner_dim=24, attn_window_len=w)
        what = nl(mc)
        nm = t.MistralForCausalLM(t.MistralConfig(
            hidden_size=16, max_position_embeddings=32, vocab_size=32, num_hidden_layers=layers, num_attention_heads=h,
            num_key_value_heads=k, intermediate_size=24, sliding_window=w, rms_norm_eps=1e-5,
            pad_token_id=None)).eval()
        randomize(nm, 3)
        lc = LLaMAConfig(model_dim=16, num_layers=layers, num_attn_heads=h, num_key_value_heads=k)
        fs2: dict[str, Any] = convert_llama_state_dict(snapshot(nm.state_dict()), lc)
        conv = convert_mistral_state_dict(to_reference(fs2), mc)
        m = create_mistral_model(mc).eval()
        load_into(m, conv, "mistral-import", what)
        x = torch.randint(1, 32, (2, 20), generator=torch.Generator().manual_seed(1))
        with torch.no_grad():
            want_l = nm(x).logits
        need_close(run_fs2(m, x, None), want_l, "mistral-logits", f"{what}: logits of the imported model")
        same_tensors(convert_mistral_state_dict(dict(fs2), mc), fs2, "mistral-native", what)
        rep.case(("mistral", what))
        rep.count("transitions", 2)


def job_nllb(rep: Report) -> None:
    """fairseq checkpoints of NLLB; M2M100 of Transformers has the same layout
    and names."""
    from fairseq2.models.nllb.config import NllbConfig
    from fairseq2.models.nllb.factory import create_nllb_model
    from fairseq2.models.nllb.interop import convert_nllb_state_dict
    from fairseq2.nn import BatchLayout

    t = hf()
    for el, dl, h, wrapped, dummy in itertools.product((1, 2, 12), (1, 2, 12), (1, 2), (False, True), (False, True)):
        if 12 in (el, dl) and (el != dl or h != 2):
            continue
        if dummy and ((el, dl) != (1, 1) or h != 2):
            continue
        # NLLB-100 checkpoints have an extra row that is not part of the vocabulary.
        V = 256102 if dummy else 40
        what = f"{'NLLB-100' if dummy else 'NLLB'} with {el}+{dl} layers, {h} heads, wrapped={wrapped}"
        nm = t.M2M100ForConditionalGeneration(t.M2M100Config(
            vocab_size=V, d_model=16, encoder_layers=el, decoder_layers=dl, encoder_attention_heads=h,
            decoder_attention_heads=h, encoder_ffn_dim=24, decoder_ffn_dim=24, max_position_embeddings=64,
            scale_embedding=True, activation_function="relu", dropout=0.0, attention_dropout=0.0,
            activation_dropout=0.0, decoder_start_token_id=2, pad_token_id=1, bos_token_id=0, eos_token_id=2)).eval()
        randomize(nm, 5)
        emb = nm.model.shared.weight.detach().clone()
        fq: dict[str, Any] = {}
        for k, v in nm.state_dict().items():
            if k.startswith("model.") and k != "model.shared.weight" and "embed_positions" not in k:
                fq[k[len("model."):]] = v.detach().clone()
        if dummy:
            emb = torch.cat([emb, torch.full((1, 16), 7.0)])
        fq["encoder.embed_tokens.weight"] = emb.clone()
        fq["decoder.embed_tokens.weight"] = emb.clone()
        fq["decoder.output_projection.weight"] = emb.clone()
        fq["encoder.version"] = torch.tensor([3.0])
        fq["decoder.version"] = torch.tensor([3.0])
        fq["encoder.embed_positions._float_tensor"] = torch.zeros(1)
        fq["decoder.embed_positions._float_tensor"] = torch.zeros(1)
        src: Any = {"model": fq} if wrapped else fq
        cfg = NllbConfig(model_dim=16, max_seq_len=64, vocab_size=V, num_encoder_layers=el, num_decoder_layers=dl,
                         num_encoder_attn_heads=h, num_decoder_attn_heads=h, ffn_inner_dim=24)
        m = create_nllb_model(cfg).eval()
        conv = convert_nllb_state_dict(src, cfg)
        load_into(m, dict(conv), "nllb-import", what)
        # (BOS, PAD, EOS, UNK) of fairseq is (PAD, UNK, BOS, EOS) in fairseq2.
        perm = list(range(V))
        perm[0], perm[1], perm[2], perm[3] = 1, 3, 0, 2  # fairseq2 -> fairseq
        P = torch.tensor(perm)
        g = torch.Generator().manual_seed(11)
        src_ids, tgt_ids = torch.randint(4, V, (2, 9), generator=g), torch.randint(4, V, (2, 7), generator=g)
        src_ids[:, -1] = 3  # EOS
        tgt_ids[:, 0] = 3
        with torch.no_grad():
            want = nm(input_ids=P[src_ids], decoder_input_ids=P[tgt_ids]).logits[..., P]
            got = m(src_ids, BatchLayout.of(src_ids), tgt_ids, BatchLayout.of(tgt_ids))
        need_close(got, want, "nllb-logits", f"{what}: logits of the imported model")
        rep.case(("nllb", el, dl, h, wrapped))
        rep.count("transitions", 2)


W2V = [
    # fairseq                                      Transformers
    (r"^mask_emb$", r"masked_spec_embed"),
    (r"^post_extract_proj\.", r"feature_projection.projection."),
    (r"^layer_norm\.", r"feature_projection.layer_norm."),
    (r"^feature_extractor\.conv_layers\.(\d+)\.0\.", r"feature_extractor.conv_layers.\1.conv."),
    (r"^feature_extractor\.conv_layers\.(\d+)\.2\.1\.", r"feature_extractor.conv_layers.\1.layer_norm."),
    (r"^feature_extractor\.conv_layers\.0\.2\.", r"feature_extractor.conv_layers.0.layer_norm."),
    (r"^encoder\.pos_conv\.0\.bias", r"encoder.pos_conv_embed.conv.bias"),
    (r"^encoder\.pos_conv\.0\.weight_g", r"encoder.pos_conv_embed.conv.parametrizations.weight.original0"),
    (r"^encoder\.pos_conv\.0\.weight_v", r"encoder.pos_conv_embed.conv.parametrizations.weight.original1"),
    (r"^encoder\.layers\.(\d+)\.self_attn_layer_norm\.", r"encoder.layers.\1.layer_norm."),
    (r"^encoder\.layers\.(\d+)\.self_attn\.", r"encoder.layers.\1.attention."),
    (r"^encoder\.layers\.(\d+)\.fc1\.", r"encoder.layers.\1.feed_forward.intermediate_dense."),
    (r"^encoder\.layers\.(\d+)\.fc2\.", r"encoder.layers.\1.feed_forward.output_dense."),
]


def w2v_key(k: str) -> str:
    for a, b in W2V:
        n = re.sub(a, b, k)
        if n != k:
            return n
    return k


def w2v_fairseq_keys(layers: int, convs: int, ln_convs: bool, bias: bool) -> list[str]:
    """Names of the parameters of a fairseq wav2vec 2.0 encoder."""
    out = ["mask_emb", "post_extract_proj.weight", "post_extract_proj.bias", "layer_norm.weight", "layer_norm.bias",
           "encoder.pos_conv.0.bias", "encoder.pos_conv.0.weight_g", "encoder.pos_conv.0.weight_v",
           "encoder.layer_norm.weight", "encoder.layer_norm.bias"]
    for i in range(convs):
        out.append(f"feature_extractor.conv_layers.{i}.0.weight")
        if bias:
            out.append(f"feature_extractor.conv_layers.{i}.0.bias")
        if ln_convs:
            out += [f"feature_extractor.conv_layers.{i}.2.1.weight", f"feature_extractor.conv_layers.{i}.2.1.bias"]
        elif i == 0:
            out += ["feature_extractor.conv_layers.0.2.weight", "feature_extractor.conv_layers.0.2.bias"]
    for i in range(layers):
        for n in ("self_attn.k_proj", "self_attn.v_proj", "self_attn.q_proj", "self_attn.out_proj", "self_attn_layer_norm",
                  "fc1", "fc2", "final_layer_norm"):
            out += [f"encoder.layers.{i}.{n}.weight", f"encoder.layers.{i}.{n}.bias"]
    return out


def job_w2v(rep: Report) -> None:
    """fairseq checkpoints of wav2vec 2.0, compared with Transformers."""
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
    from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model
    from fairseq2.models.wav2vec2.asr.interop import convert_wav2vec2_asr_state_dict
    from fairseq2.models.wav2vec2.config import Wav2Vec2Config, Wav2Vec2EncoderConfig
    from fairseq2.models.wav2vec2.factory import create_wav2vec2_model
    from fairseq2.models.wav2vec2.interop import convert_wav2vec2_state_dict
    from fairseq2.nn import BatchLayout

    t = hf()
    PRE, POST = TransformerNormOrder.PRE, TransformerNormOrder.POST
    descs = [(8, 10, 5), (8, 3, 2), (8, 2, 2)]
    for order, lnc, bias, layers, asr, wrapped in itertools.product(
        (POST, PRE), (False, True), (False, True), (1, 2, 11), (False, True), (False, True)
    ):
        if layers == 11 and (lnc, bias) != (order == PRE, order == PRE):
            continue
        what = f"wav2vec 2.0 ({'ASR' if asr else 'pretraining'}), {order}, layer_norm_convs={lnc}, bias={bias}, layers={layers}, wrapped={wrapped}"
        hc = t.Wav2Vec2Config(
            hidden_size=16, num_hidden_layers=layers, num_attention_heads=2, intermediate_size=24,
            feat_extract_norm="layer" if lnc else "group", conv_dim=[d[0] for d in descs],
            conv_kernel=[d[1] for d in descs], conv_stride=[d[2] for d in descs], conv_bias=bias,
            num_conv_pos_embeddings=8, num_conv_pos_embedding_groups=2, do_stable_layer_norm=order == PRE,
            num_codevectors_per_group=4, num_codevector_groups=2, codevector_dim=8, proj_codevector_dim=8, vocab_size=12,
            hidden_act="gelu", hidden_dropout=0.0, attention_dropout=0.0, activation_dropout=0.0, feat_proj_dropout=0.0,
            feat_quantizer_dropout=0.0, final_dropout=0.0, layerdrop=0.0)
        nm = (t.Wav2Vec2ForCTC(hc) if asr else t.Wav2Vec2ForPreTraining(hc)).eval()
        randomize(nm, 9)
        nsd = {k: v.detach().clone() for k, v in nm.state_dict().items()}
        fq: dict[str, Any] = {}
        prefix = "w2v_encoder.w2v_model." if asr else ""
        for k in w2v_fairseq_keys(layers, len(descs), lnc, bias):
            fq[prefix + k] = nsd["wav2vec2." + w2v_key(k)].clone()
        if asr:
            fq["w2v_encoder.proj.weight"] = nsd["lm_head.weight"]
            fq["w2v_encoder.proj.bias"] = nsd["lm_head.bias"]
        else:
            fq["quantizer.vars"] = nsd["quantizer.codevectors"]
            for n, o in (("quantizer.weight_proj", "quantizer.weight_proj"), ("project_q", "project_q"), ("final_proj", "project_hid")):
                for s in ("weight", "bias"):
                    fq[f"{n}.{s}"] = nsd[f"{o}.{s}"]
        enc = dict(
            model_dim=16, feature_dim=8, layer_norm_features=order == POST, feature_extractor_layer_descs=descs,
            feature_extractor_bias=bias, feature_extractor_layer_norm_convs=lnc, feature_grad_scale=1.0,
            pos_conv_kernel_size=8, num_pos_conv_groups=2, num_encoder_layers=layers, num_encoder_attn_heads=2,
            ffn_inner_dim=24, dropout_p=0.0, attn_dropout_p=0.0, layer_drop_p=0.0, norm_order=order, max_seq_len=256)
        src: Any = {"model": fq} if wrapped else fq
        # fairseq normalises the audio outside of the model.
        x = torch.randn(2, 400, generator=torch.Generator().manual_seed(4))
        if asr:
            ac = Wav2Vec2AsrConfig(encoder_config=Wav2Vec2EncoderConfig(**enc), target_vocab_size=12)
            m: Any = create_wav2vec2_asr_model(ac).eval()
            load_into(m, convert_wav2vec2_asr_state_dict(src, ac), "wav2vec2-asr-import", what)
            with torch.no_grad():
                got, _ = m(x, BatchLayout.of(x))
                want = nm(x).logits
        else:
            pc = Wav2Vec2Config(encoder_config=Wav2Vec2EncoderConfig(**enc), final_dim=8, quantized_dim=8, num_codebooks=2,
                                num_codebook_entries=4)
            m = create_wav2vec2_model(pc).eval()
            load_into(m, convert_wav2vec2_state_dict(src, pc), "wav2vec2-import", what)
            with torch.no_grad():
                fe = m.encoder_frontend
                seqs, lay, _ = fe.extract_features(x, BatchLayout.of(x))
                seqs, _ = fe.process_features(seqs, lay, None)
                got = m.final_proj(m.encoder(seqs, lay))
                want = nm.project_hid(nm.wav2vec2(x).last_hidden_state)
            if not torch.equal(m.quantizer.entries, nsd["quantizer.codevectors"]):
                raise Violation("wav2vec2-quantizer", f"{what}: codebook entries differ")
        need_close(got, want, "wav2vec2-output", f"{what}: output of the imported model")
        rep.case(("w2v", what))
        rep.count("transitions", 2)


def check(rep: Report) -> None:
    hf()
    jobs: list[Callable[[Report], None]] = []
    for name, n in (("gemma3n", 4), ("olmo", 4), ("llama", 4), ("qwen", 3)):
        for c in range(n):
            jobs.append(job_export(name, c, n))
    jobs += [job_w2v, job_nllb, job_reference]
    jobs += [job_arch(fam) for fam in CONFIGS]
    run_jobs(rep, jobs)
