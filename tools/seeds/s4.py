SEEDS = [
 dict(id="b17-pad-first-row", property="P01",
  needs="a padding index that is the first row of a vocabulary shard, and a backward pass",
  breaks="the padding embedding receives gradients under tensor parallelism",
  edits=[("nn/embedding.py", "elif self.pad_idx >= vocab_begin_idx and self.pad_idx < vocab_end_idx:", "elif vocab_begin_idx < self.pad_idx < vocab_end_idx:")],
  demo=r'''
from fairseq2.gang import FakeGang, create_fsdp_gangs, FakeGang
from fairseq2.gang import Gangs
from fairseq2.nn import VocabShardedEmbedding, StandardEmbedding
dev = torch.device("cpu")
g = FakeGang(dev, rank=1, size=2)
one = FakeGang(dev)
gangs = Gangs(root=g, dp=one, rdp=one, sdp=one, tp=g, pp=one)
e = VocabShardedEmbedding(8, 3, 4, gangs=gangs, device=dev)
e(torch.tensor([[4, 5, 4]])).sum().backward()
assert (e.weight.grad[0] == 0).all(), e.weight.grad
assert (e.weight.grad[1] != 0).all()
'''),
 dict(id="b18-gather-dim", property="P01",
  needs="a tensor gathered along a dimension other than the last one, and a backward pass",
  breaks="the gradient is scattered along the wrong dimension",
  edits=[("ops/tensor_parallel.py", "x = _do_scatter(grad_output, ctx.gang, ctx.dim)", "x = _do_scatter(grad_output, ctx.gang, dim=-1)")],
  demo=r'''
from fairseq2.gang import FakeGang
from fairseq2.ops.tensor_parallel import gather
g = FakeGang(torch.device("cpu"), rank=1, size=2)
x = torch.randn(2, 4, 6, requires_grad=True)
y = gather(x, g, dim=1)
w = torch.randn_like(y)
(y * w).sum().backward()
assert x.grad.shape == x.shape and torch.equal(x.grad, w[:, 4:]), x.grad
'''),
 dict(id="b19-reshard-span", property="K01",
  needs="a checkpoint with three tensor parallel shards loaded with two (or the reverse)",
  breaks="parameters that span part of several source shards cannot be loaded or are mixed up",
  edits=[("model_checkpoint/common.py", "    last_source_tp_shard_idx = last_target_idx // source_tp_dim_size\n", "    num_source_tp_shards = max(1, target_tp_dim_size // source_tp_dim_size)\n\n    last_source_tp_shard_idx = first_source_tp_shard_idx + num_source_tp_shards - 1\n"),
         ("model_checkpoint/common.py", "    last_target_idx = target_tp_rank * target_tp_dim_size + target_tp_dim_size - 1\n", "")],
  demo=r'''
from fairseq2.model_checkpoint import reshard_tensor
w = torch.arange(12.).view(6, 2)
for src, dst in [(2, 4), (4, 2), (3, 2), (2, 3), (1, 2)]:
    for r in range(dst):
        out = reshard_tensor("w", [[t] for t in w.chunk(src)], (src, 1), (dst, 1), (r, 0), {"w": 0}) if 6 % src == 0 and 6 % dst == 0 else None
        if out is not None:
            assert torch.equal(out, w.chunk(dst)[r]), (src, dst, r)
'''),
 dict(id="b20-safetensors-dup", property="K01",
  needs="a Safetensors directory in which two files hold the same key",
  breaks="one of the contradictory tensors is used without an error",
  edits=[("model_checkpoint/safetensors.py", """                if key in checkpoint:
                    message""", """                if key in checkpoint and checkpoint[key].shape != value.shape:
                    message""")],
  demo=r'''
from pathlib import Path
from safetensors.torch import save_file
from fairseq2.file_system import LocalFileSystem
from fairseq2.gang import FakeGang, Gangs
from fairseq2.io import HuggingFaceSafetensorsLoader
from fairseq2.model_checkpoint import ModelCheckpointLoadOptions, CorruptModelCheckpointError
from fairseq2.model_checkpoint.safetensors import _SafetensorsCheckpointLoader as L
''' if False else r'''
from pathlib import Path
from safetensors.torch import save_file
from fairseq2.runtime.dependency import get_dependency_resolver
from fairseq2.model_checkpoint import ModelCheckpointLoader, ModelCheckpointLoadOptions, CorruptModelCheckpointError
from fairseq2.gang import FakeGang, Gangs
d = Path(tempfile.mkdtemp())
try:
    save_file({"a": torch.zeros(2), "b": torch.zeros(2)}, d / "m-1.safetensors")
    save_file({"c": torch.zeros(2), "b": torch.ones(2)}, d / "m-2.safetensors")
    one = FakeGang(torch.device("cpu"))
    gangs = Gangs(root=one, dp=one, rdp=one, sdp=one, tp=one, pp=one)
    loader = get_dependency_resolver().resolve(ModelCheckpointLoader)
    try:
        out = dict(loader.lazy_load(d, {}, ModelCheckpointLoadOptions(gangs=gangs)))
    except CorruptModelCheckpointError:
        pass
    else:
        raise AssertionError(out)
finally:
    shutil.rmtree(d)
'''),
 dict(id="b21-llama-rope-orig", property="K02",
  needs="a LLaMA 3.1+ configuration (scaled RoPE) whose context length differs from the original one",
  breaks="the exported configuration scales the rotary frequencies differently",
  edits=[("models/llama/interop.py", '"original_max_position_embeddings": config.rope_scale.original_context_length,', '"original_max_position_embeddings": min(\n                    config.max_seq_len, config.rope_scale.original_context_length\n                ),')],
  demo=r'''
from fairseq2.models.llama.config import LLaMAConfig
from fairseq2.models.llama.interop import _LLaMAHuggingFaceConverter
c = LLaMAConfig(max_seq_len=2048, use_scaled_rope=True)
out = _LLaMAHuggingFaceConverter().to_hg_config(c)
rs = out.data["rope_scaling"]
assert rs["original_max_position_embeddings"] == c.rope_scale.original_context_length, rs
'''),
 dict(id="b22-nllb-dummy", property="K02",
  needs="a fairseq checkpoint of NLLB-100 (the one with a dummy token)",
  breaks="the vocabulary of NLLB-100 is shifted by one position",
  edits=[("models/nllb/interop.py", "            embeds = embeds[:-1]\n", "            embeds = embeds[1:]\n")],
  demo=r'''
from fairseq2.models.nllb.config import NllbConfig
from fairseq2.models.nllb.interop import convert_nllb_state_dict
w = torch.arange(256103.).view(-1, 1)
sd = {"model": {"encoder.embed_tokens.weight": w.clone(), "decoder.embed_tokens.weight": w.clone(), "decoder.output_projection.weight": w.clone()}}
out = convert_nllb_state_dict(sd, NllbConfig())
for k in ("encoder_frontend.embed.weight", "decoder_frontend.embed.weight", "final_proj.weight"):
    assert out[k].flatten()[:6].tolist() == [1, 3, 0, 2, 4, 5] and len(out[k]) == 256102, (k, out[k])
'''),
 dict(id="b23-kv-share-order", property="N01",
  needs="incremental decoding of a model whose later layers share keys and values of an earlier one, beyond the first step",
  breaks="layers that share keys and values see only those of the current step",
  edits=[("models/transformer/multihead_attention.py", """                k, v = self._project_kv(keys, keys_layout, values, state_bag)

                state = state_bag""", """                k, v = self._project_kv(keys, keys_layout, values, state_bag)

                if kv_storage_callback is not None:
                    kv_storage_callback(k, v)

                state = state_bag"""),
         ("models/transformer/multihead_attention.py", """                # Store K/V for sharing AFTER incremental state management
                if kv_storage_callback is not None:
                    kv_storage_callback(k, v)
            else:
                state""", """            else:
                state""")],
  demo=r'''
from fairseq2.models.transformer import StandardMultiheadAttention, CausalAttentionBias, AttentionBiasCache
from fairseq2.models.transformer import create_default_sdpa
from fairseq2.nn import BatchLayout, IncrementalStateBag
dev = torch.device("cpu")
m = StandardMultiheadAttention(8, 2, sdpa=create_default_sdpa(CausalAttentionBias()), device=dev).eval()
bag = IncrementalStateBag(8)
x = torch.randn(2, 4, 8)
got = []
for i in range(4):
    s = x[:, i:i+1]
    l = BatchLayout.of(s)
    m(s, l, s, l, s, AttentionBiasCache(), state_bag=bag, kv_storage_callback=lambda k, v: got.append(k.size(1)))
    if i < 3: bag.increment_step_nr()
assert got == [1, 2, 3, 4], got
'''),
 dict(id="b24-reorder-sorted", property="N01",
  needs="beam reordering in which one sequence replaces its neighbour while the order stays sorted, e.g. [0, 0, 2]",
  breaks="the state is not reordered because the order looks like the identity",
  edits=[("nn/incremental_state.py", """        for state in self._module_states.values():
            state.reorder(new_order)
""", """        # Avoid copying the state tensors if the order does not change.
        order = new_order.tolist()

        if order and order == sorted(order) and order[-1] == len(order) - 1:
            return

        for state in self._module_states.values():
            state.reorder(new_order)
""")],
  demo=r'''
from torch.nn import Module
from fairseq2.nn import IncrementalStateBag
from fairseq2.models.transformer import FullAttentionState
k = torch.arange(3.).view(3, 1, 1, 1)
m = Module()
for o in ([0, 1, 2], [0, 0, 2], [0, 2], [1, 1, 2]):
    bag = IncrementalStateBag(4)
    bag.set_state(m, FullAttentionState(k, k, max_seq_len=4, capacity_increment=None))
    bag.reorder(torch.tensor(o))
    s = bag.maybe_get_state(m, FullAttentionState)
    if o != [0, 2]:
        assert s.get()[0].flatten().tolist() == o, o
'''),
 dict(id="b25-key-padding", property="B01",
  needs="a batch of one sequence in which only the keys (of the encoder) are padded",
  breaks="attention reads the padding of the keys",
  edits=[("models/transformer/attention_bias.py", "        if q_begin == 0 and q_end == q_len and k_begin == 0 and k_end == k_len:\n", "        if q_begin == 0 and q_end == q_len and k_begin == 0:\n")],
  demo=r'''
from fairseq2.models.transformer import IdentityBias, AttentionBiasCache
from fairseq2.models.transformer import TorchSDPA, NaiveSDPA
from fairseq2.nn import BatchLayout
torch.manual_seed(0)
q = torch.randn(1, 2, 1, 4); k = torch.randn(1, 5, 1, 4)
ql = BatchLayout.of(q); kl = BatchLayout.of(k, [3])
a, _ = NaiveSDPA(IdentityBias())(q, ql, k, kl, k, AttentionBiasCache())
b, _ = NaiveSDPA(IdentityBias())(q, ql, k[:, :3], BatchLayout.of(k[:, :3]), k[:, :3], AttentionBiasCache())
torch.testing.assert_close(a, b)
'''),
 dict(id="b26-conv-mask-eval", property="B01",
  needs="a Conformer in evaluation mode with a padded batch that is wider than the kernel",
  breaks="the depthwise convolution mixes padding into the last frames of shorter sequences",
  edits=[("models/conformer/convolution.py", "        if seqs_layout.padded:\n", "        if seqs_layout.padded and self.training:\n")],
  demo=r'''
from fairseq2.models.conformer import ConformerConvolution
from fairseq2.nn import BatchLayout
torch.manual_seed(0)
m = ConformerConvolution(8, 3, norm_type="layer_norm", device=torch.device("cpu")).eval()
x = torch.randn(2, 6, 8)
y = m(x, BatchLayout.of(x, [6, 4]))
z = m(x[1:, :4], BatchLayout.of(x[1:, :4]))
torch.testing.assert_close(y[1, :4], z[0])
'''),
 dict(id="b27-score-dir", property="C05",
  needs="a checkpoint directory in which the best step is not the last one and a tie or negative score exists",
  breaks="the best checkpoint card names the wrong step when all scores are negative",
  edits=[("checkpoint/model_metadata.py", "            scores.sort(reverse=True)\n", "            scores.sort(key=lambda e: (abs(e[0]), e[1]), reverse=True)\n")],
  demo=r'''
from pathlib import Path
from fairseq2.assets import AssetMetadataFileLoader
from fairseq2.checkpoint.model_metadata import StandardModelMetadataLoader
from fairseq2.runtime.dependency import get_dependency_resolver
from fairseq2.file_system import FileSystem
r = get_dependency_resolver()
d = Path(tempfile.mkdtemp())
try:
    (d / "model.yaml").write_text("name: checkpoint@\nmodel_family: llama\nmodel_arch: llama3_8b\n")
    (d / "scores").mkdir()
    for n, s in ((1, -1.0), (2, -3.0), (3, -2.0)):
        (d / f"step_{n}" / "model").mkdir(parents=True)
        (d / "scores" / f"step_{n}.txt").write_text(f"{s}\n")
    p = StandardModelMetadataLoader(r.resolve(FileSystem), r.resolve(AssetMetadataFileLoader)).load(d)
    m = p.maybe_get_metadata("best_checkpoint_0@")
    assert "step_1" in str(m["checkpoint"]), m
finally:
    shutil.rmtree(d)
'''),
]
