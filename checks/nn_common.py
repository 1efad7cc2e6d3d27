"""Small models and attention modules shared by N01 and B01."""

from __future__ import annotations

from typing import Any, Callable

from mc import boot

boot.init()

import torch
from torch import Tensor
from torch.nn import Module

M = 16  # model dimensionality
V = 24  # vocabulary size


def randomize(model: Module, seed: int = 0) -> Any:
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            r = torch.randn(p.shape, generator=g)
            p.copy_(r * (0.5 if p.shape[-1] <= M else 0.25) if p.dim() > 1 else 1 + 0.3 * r)
        for n, b in model.named_buffers():
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g) * 0.3)
            elif n.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return model.eval()


# ---------------------------------------------------------------- attention

H = 2
HD = M // H


def make_bias(kind: Any) -> Any:
    from fairseq2.models.transformer import (
        ALiBiAttentionBias,
        CausalAttentionBias,
        ChunkedAttentionBias,
        IdentityBias,
    )

    if kind == "identity":
        return IdentityBias()
    if kind == "causal":
        return CausalAttentionBias()
    if kind == "alibi":
        return ALiBiAttentionBias(H)
    name, n = kind
    if name == "window":
        return CausalAttentionBias(attn_window_len=n)
    assert name == "chunk"
    return ChunkedAttentionBias(n)


def allowed(kind: Any, i: int, j: int) -> bool:
    """Whether position i attends to position j of the same sequence."""
    if kind == "identity":
        return True
    if kind in ("causal", "alibi"):
        return j <= i
    name, n = kind
    if name == "window":
        return i - n < j <= i
    return j <= i and i // n == j // n


def make_sdpa(impl: str, bias: Any) -> Any:
    from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
    from fairseq2.models.transformer.sdpa.relative import RelativePositionalEncoding, RelativePositionSDPA
    from fairseq2.models.transformer.sdpa.shaw import ShawRelativePositionSDPA
    from fairseq2.models.transformer.sdpa.soft_capped import SoftCappedSDPA
    from fairseq2.models.transformer.sdpa.torch import TorchSDPA

    if impl == "torch":
        return TorchSDPA(bias)
    if impl == "torch-scaled":
        return TorchSDPA(bias, scale=0.7)
    if impl == "naive":
        return NaiveSDPA(bias)
    if impl == "naive-scaled":
        return NaiveSDPA(bias, scale=0.7)
    if impl == "softcap":
        return SoftCappedSDPA(bias, soft_cap=2.0)
    if impl == "shaw":
        return ShawRelativePositionSDPA(M, H, bias, 2, max_rhs_rel_pos=1, use_rel_pos_values=True)
    if impl == "flash2":
        from fairseq2.models.transformer.sdpa.flash2 import Flash2SDPA

        return Flash2SDPA(bias)
    assert impl == "relative"
    return RelativePositionSDPA(M, H, RelativePositionalEncoding(M, 32), bias)


def make_pos(kind: str, n: int = 32) -> Any:
    from fairseq2.models.olmo.yarn_rope import YaRNRotaryEncoder
    from fairseq2.nn import (
        LearnedPositionEncoder,
        ReferenceRotaryEncoder,
        RotaryEncoder,
        SinusoidalPositionEncoder,
    )
    from fairseq2.nn.position_encoder import DualRotaryEncoder

    if kind == "none":
        return None
    if kind == "rotary":
        return RotaryEncoder(HD, n)
    if kind == "reference-rotary":
        return ReferenceRotaryEncoder(HD, n)
    if kind == "dual-rotary":
        return DualRotaryEncoder(HD, n, theta=10_000.0, dual_theta=100.0)
    if kind == "yarn":
        return YaRNRotaryEncoder(HD, n, theta=100.0, scale_factor=4.0, original_max_seq_len=8)
    if kind == "sinusoidal":
        return SinusoidalPositionEncoder(HD, n)
    assert kind == "learned"
    return LearnedPositionEncoder(HD, n)


def make_mha(
    impl: str = "torch", bias: Any = "causal", pos: str = "rotary", *, kv_heads: int = 1,
    state_window: int | None = None, olmo: bool = False, max_len: int = 32, seed: int = 0,
) -> Any:
    from fairseq2.models.transformer import LocalAttentionStateFactory, StandardMultiheadAttention

    factory = None if state_window is None else LocalAttentionStateFactory(state_window)
    sdpa = make_sdpa(impl, make_bias(bias))
    if olmo:
        from fairseq2.models.olmo.attention import OLMOMultiheadAttention

        m: Any = OLMOMultiheadAttention(M, H, sdpa, num_key_value_heads=kv_heads, rope_encoder=make_pos(pos, max_len),
                                        bias=True, state_factory=factory)
    else:
        m = StandardMultiheadAttention(M, H, sdpa, num_key_value_heads=kv_heads, pos_encoder=make_pos(pos, max_len), bias=True,
                                       state_factory=factory)
    return randomize(m, seed)


# ------------------------------------------------------------ causal models


def lm_models() -> dict[str, Callable[[], Any]]:
    def llama(**kw: Any) -> Any:
        from fairseq2.models.llama.config import LLaMAConfig, LLaMARoPEScaleConfig
        from fairseq2.models.llama.factory import create_llama_model

        c: dict[str, Any] = dict(model_dim=M, max_seq_len=32, vocab_size=V, num_layers=2, num_attn_heads=2, num_key_value_heads=1,
                                 ffn_inner_dim=24, ffn_inner_dim_multiple_of=4)
        if kw.pop("scaled", False):
            c.update(use_scaled_rope=True, rope_scale=LLaMARoPEScaleConfig(4.0, (1.0, 4.0), 8))
        return create_llama_model(LLaMAConfig(**dict(c, **kw)))

    def llama4(**kw: Any) -> Any:
        from fairseq2.models.llama4.config import Llama4Config, Llama4ExpertsConfig
        from fairseq2.models.llama4.factory import create_llama4_model

        return create_llama4_model(Llama4Config(**dict(dict(
            model_dim=M, max_seq_len=32, vocab_size=V, num_layers=3, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=24,
            ffn_inner_dim_multiple_of=4, attention_chunk_size=3, use_qk_norm=True, nope_layer_interval=3,
            shard_embed_dim=False, pad_idx=None, experts=Llama4ExpertsConfig(num_experts=2, interleave_moe_layer_step=2)), **kw)))

    def qwen(**kw: Any) -> Any:
        from fairseq2.models.qwen.config import QwenConfig
        from fairseq2.models.qwen.factory import create_qwen_model

        return create_qwen_model(QwenConfig(**dict(dict(
            model_dim=M, max_seq_len=32, vocab_size=V, num_layers=2, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=24),
            **kw)))

    def mistral(w: int) -> Any:
        from fairseq2.models.mistral.config import MistralConfig
        from fairseq2.models.mistral.factory import create_mistral_model

        return create_mistral_model(MistralConfig(
            model_dim=M, max_seq_len=32, vocab_size=V, num_layers=2, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=24,
            attn_window_len=w))

    def olmo(**kw: Any) -> Any:
        from fairseq2.models.olmo.config import OLMOConfig
        from fairseq2.models.olmo.factory import create_olmo_model

        return create_olmo_model(OLMOConfig(**dict(dict(
            model_dim=M, max_seq_len=32, vocab_size=V, num_layers=2, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=24,
            pad_idx=0, eos_token_id=1), **kw)))

    def gemma(**kw: Any) -> Any:
        from fairseq2.models.gemma3n.config import Gemma3nConfig
        from fairseq2.models.gemma3n.factory import create_gemma3n_model

        return create_gemma3n_model(Gemma3nConfig(**dict(dict(
            model_dim=M, max_seq_len=32, vocab_size=V, num_layers=7, num_attn_heads=2, num_key_value_heads=1, head_dim=8,
            ffn_inner_dim=24, altup_hidden_dim=24, sliding_window=3, num_kv_shared_layers=2, laurel_rank=4,
            altup_num_inputs=2, vocab_size_per_layer_input=V, hidden_size_per_layer_input=8), **kw)))

    full, slide = "full_attention", "sliding_attention"
    return {
        "llama": lambda: llama(),
        "llama-scaled-rope": lambda: llama(scaled=True),
        "llama4": lambda: llama4(),
        "qwen2": lambda: qwen(),
        "qwen3": lambda: qwen(qkv_proj_bias=False, q_norm=True, k_norm=True),
        "mistral-w1": lambda: mistral(1),
        "mistral-w2": lambda: mistral(2),
        "mistral-w3": lambda: mistral(3),
        "mistral-w8": lambda: mistral(8),
        "olmo2": lambda: olmo(),
        "olmo3": lambda: olmo(sliding_window=3, layer_types=[slide, full]),
        "gemma3n": lambda: gemma(),
        "gemma3n-noshare": lambda: gemma(num_kv_shared_layers=0),
    }


# ---------------------------------------------------- encoder-decoder models


def seq2seq_models() -> dict[str, tuple[Callable[[], Any], bool]]:
    """name -> (factory, whether the source is speech)"""

    def nllb() -> Any:
        from fairseq2.models.nllb.config import NllbConfig
        from fairseq2.models.nllb.factory import create_nllb_model

        return create_nllb_model(NllbConfig(
            model_dim=M, max_seq_len=32, vocab_size=V, num_encoder_layers=2, num_decoder_layers=2, num_encoder_attn_heads=2,
            num_decoder_attn_heads=2, ffn_inner_dim=24))

    def s2t() -> Any:
        from fairseq2.models.s2t_transformer.config import S2TTransformerConfig
        from fairseq2.models.s2t_transformer.factory import create_s2t_transformer_model

        return create_s2t_transformer_model(S2TTransformerConfig(
            model_dim=M, max_source_seq_len=32, num_fbank_channels=8, max_target_seq_len=32, target_vocab_size=V, pad_idx=1,
            num_encoder_layers=2, num_decoder_layers=2, num_encoder_attn_heads=2, num_decoder_attn_heads=2, ffn_inner_dim=24))

    def conformer(rel: bool) -> Any:
        from fairseq2.models.s2t_conformer.config import S2TConformerConfig
        from fairseq2.models.s2t_conformer.factory import create_s2t_conformer_model

        return create_s2t_conformer_model(S2TConformerConfig(
            model_dim=M, max_source_seq_len=32, num_fbank_channels=8, max_target_seq_len=32, target_vocab_size=V, pad_idx=1,
            use_relative_pos=rel, num_encoder_layers=2, num_decoder_layers=2, num_encoder_attn_heads=2,
            num_decoder_attn_heads=2, depthwise_conv_kernel_size=3, ffn_inner_dim=24))

    return {
        "nllb": (nllb, False),
        "s2t-transformer": (s2t, True),
        "s2t-conformer": (lambda: conformer(False), True),
        "s2t-conformer-relative": (lambda: conformer(True), True),
    }
