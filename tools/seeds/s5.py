GLOO = r'''
import subprocess, tempfile
N = int(os.environ.get("DEMO_N", "2"))
if "DEMO_DIR" not in os.environ:
    import socket
    with tempfile.TemporaryDirectory() as d:
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]
        env = dict(os.environ, DEMO_DIR=d, MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), WORLD_SIZE=str(N), LOCAL_WORLD_SIZE=str(N))
        ps = [subprocess.Popen([sys.executable, "-W", "ignore", __file__], env=dict(env, RANK=str(r), LOCAL_RANK=str(r))) for r in range(N)]
        import time
        t0 = time.time()
        while any(p.poll() is None for p in ps):
            if any(p.poll() for p in ps) or time.time() - t0 > 200:
                for p in ps:
                    p.kill()
            time.sleep(0.1)
        sys.exit(1 if any(p.wait() for p in ps) else 0)
from fairseq2.gang import ProcessGroupGang, Gangs, FakeGang, create_fsdp_gangs
from fairseq2.device import CPU
root = ProcessGroupGang.create_default_process_group(CPU)
rank = root.rank
one = FakeGang(CPU)
def check(ok, msg):
    bad = torch.tensor([0 if ok else 1])
    root.all_reduce(bad, __import__("fairseq2.gang").gang.ReduceOperation.SUM)
    assert int(bad) == 0, (rank, msg)
'''

SEEDS = [
 dict(id="b28-prefill-chunk", property="G02",
  needs="beam search with a prefill chunk size smaller than the prompt",
  breaks="scores of all prompt chunks but the last are left out of the score of every hypothesis",
  edits=[("generation/beam_search/generator.py", "            prompt_scores += self._step_scores[:, chunk_begin].unsqueeze(-1)\n", "            prompt_scores += self._step_scores[:, :1]\n")],
  demo=r'''
from fairseq2.data.tokenizers import VocabularyInfo
from fairseq2.generation.beam_search import BeamSearchSequenceGenerator
from fairseq2.models.clm import CausalLM
from fairseq2.nn import BatchLayout
class M(CausalLM):
    def __init__(self):
        super().__init__(32)
        self.w = torch.nn.Parameter(torch.randn(6, 6, generator=torch.Generator().manual_seed(1)))
    def forward(self, seqs, seqs_layout, targets=None, *, state_bag=None, **kw):
        return self.w[seqs]
v = VocabularyInfo(size=6, unk_idx=None, bos_idx=None, eos_idx=1, pad_idx=0)
out = []
for chunk in (None, 2):
    g = BeamSearchSequenceGenerator(M(), v, beam_size=2, max_gen_len=4, echo_prompt=True, prefill_chunk_size=chunk)
    p = torch.tensor([[2, 3, 4, 5, 3, 2, 4]])
    with torch.no_grad():
        r = g(p, BatchLayout.of(p))
    out.append([float(h.score) for h in r.hypotheses[0]])
assert torch.allclose(torch.tensor(out[0]), torch.tensor(out[1])), out
'''),
 dict(id="b29-ban-short", property="G02",
  needs="a banned sequence that starts with token 0 and a generated sequence shorter than its prefix",
  breaks="a token is banned although the banned sequence was not generated",
  edits=[("generation/step_processor.py", "seqs = pad(seqs, (len_delta, 0), value=-1)", "seqs = pad(seqs, (len_delta, 0), value=0)")],
  demo=r'''
from fairseq2.generation.step_processor import BannedSequenceProcessor
p = BannedSequenceProcessor([torch.tensor([0, 2, 3])])
probs = torch.full((1, 5), 0.2)
p(torch.tensor([[2]]), probs)
assert probs[0, 3] > 0, probs
p(torch.tensor([[0, 2]]), probs)
assert probs[0, 3] == 0
'''),
 dict(id="b30-prompt-lens", property="G02",
  needs="sampling from prompts of different lengths where an earlier sequence ends first",
  breaks="the output of later sequences starts at the prompt length of another sequence",
  edits=[("generation/sampling/generator.py", "            self._prompt_lens = self._prompt_lens.index_select(dim=0, index=new_order)\n", "            self._prompt_lens = self._prompt_lens[: len(new_order)]\n")],
  demo=r'''
from fairseq2.data.tokenizers import VocabularyInfo
from fairseq2.generation.sampling import SamplingSequenceGenerator, TopKSampler
from fairseq2.models.clm import CausalLM
from fairseq2.nn import BatchLayout
class M(CausalLM):
    def forward(self, seqs, seqs_layout, targets=None, *, state_bag=None, **kw):
        nxt = torch.tensor([0, 1, 3, 4, 1, 2])[seqs]
        return torch.nn.functional.one_hot(nxt, 6).float() * 50
v = VocabularyInfo(size=6, unk_idx=None, bos_idx=None, eos_idx=1, pad_idx=0)
g = SamplingSequenceGenerator(M(32), v, TopKSampler(1), max_gen_len=8)
p = torch.tensor([[4, 5, 4], [4, 5, 0]])
with torch.no_grad():
    r = g(p, BatchLayout.of(p, [3, 2]))
got = [h[0].seq.tolist() for h in r.hypotheses]
assert got == [[1], [2, 3, 4, 1]], got
'''),
 dict(id="b31-download-rename", property="A01",
  needs="a process that dies between two renames at the end of a download",
  breaks="the cached asset keeps a random temporary name (archives are not recognised by their suffix)",
  edits=[("assets/download_manager.py", "            self._file_system.move(tmp_file, download_file)\n\n            self._file_system.move(tmp_download_dir, download_dir)\n",
          "            self._file_system.move(tmp_download_dir, download_dir)\n\n            tmp_file = download_dir.joinpath(tmp_file.name)\n\n            self._file_system.move(tmp_file, download_dir.joinpath(download_file.name))\n")],
  demo=r'''
import http.server, threading
from pathlib import Path
from fairseq2.assets.download_manager import StandardAssetDownloadManager
from fairseq2.file_system import LocalFileSystem
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER as NP
from fairseq2.utils.uri import Uri
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200); self.send_header("Content-Length", "5"); self.end_headers(); self.wfile.write(b"hello")
    def log_message(self, *a): pass
srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
class Died(BaseException): pass
class Fs:
    def __init__(self, n): self.fs, self.n = LocalFileSystem(), n
    def __getattr__(self, k):
        f = getattr(self.fs, k)
        if k != "move": return f
        def move(*a):
            if self.n == 0: raise Died()
            self.n -= 1
            return f(*a)
        return move
uri = Uri.parse(f"http://127.0.0.1:{srv.server_port}/model.pt")
for n in range(6):
    with tempfile.TemporaryDirectory() as d:
        try:
            StandardAssetDownloadManager(Path(d), Fs(n), NP, NP).download_model(uri)
        except Died:
            pass
        p = StandardAssetDownloadManager(Path(d), LocalFileSystem(), NP, NP).download_model(uri)
        assert p.name == "model.pt" and p.read_bytes() == b"hello", (n, p)
'''),
 dict(id="b32-uri-query", property="A01",
  needs="two assets of one server whose addresses differ in the query only",
  breaks="the second asset is not downloaded, the first one is returned in its place",
  edits=[("assets/download_manager.py", "        h = sha1(str(uri).encode()).hexdigest()\n", "        h = sha1(str(uri).partition(\"?\")[0].encode()).hexdigest()\n")],
  demo=r'''
import http.server, threading
from pathlib import Path
from fairseq2.assets.download_manager import StandardAssetDownloadManager
from fairseq2.file_system import LocalFileSystem
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER as NP
from fairseq2.utils.uri import Uri
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        b = self.path.encode()
        self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
    def log_message(self, *a): pass
srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
with tempfile.TemporaryDirectory() as d:
    m = StandardAssetDownloadManager(Path(d), LocalFileSystem(), NP, NP)
    for q in ("?v=1", "?v=2"):
        p = m.download_model(Uri.parse(f"http://127.0.0.1:{srv.server_port}/get{q}"))
        assert p.read_bytes() == f"/get{q}".encode(), (q, p.read_bytes())
'''),
 dict(id="b33-tmp-dir", property="F01",
  needs="an error while a temporary directory of a remote file system is in use",
  breaks="the temporary directory is never removed",
  edits=[("file_system.py", "                yield tmp_path\n            finally:\n", "                yield tmp_path\n            except OSError:\n                raise\n            else:\n")],
  demo=r'''
from pathlib import Path
from fsspec.implementations.memory import MemoryFileSystem
from fairseq2.file_system import FSspecFileSystem
fs = FSspecFileSystem(MemoryFileSystem(), "memory://")
base = Path("memory://base")
fs.make_directory(base)
try:
    with fs.tmp_directory(base) as p:
        raise ValueError()
except ValueError:
    pass
assert not fs.exists(p), p
'''),
 dict(id="b34-ddp-meta-buffers", property="W01",
  needs="a model with non-persistent buffers created on the meta device, wrapped with DDP",
  breaks="non-persistent buffers of all processes but the first one hold uninitialised memory",
  edits=[("nn/ddp.py", "            # Non-persistent buffers are never part of a module's state, so we\n            # have to initialize them.\n            reset_non_persistent_buffers(module)\n",
          "            # Non-persistent buffers are never part of a module's state, so we\n            # have to initialize them.\n            reset_non_persistent_buffers(module, recurse=False)\n")],
  demo=GLOO + r'''
from fairseq2.nn import RotaryEncoder
from fairseq2.nn.ddp import to_ddp
class M(torch.nn.Module):
    def __init__(self, device=None):
        super().__init__()
        self.pos = RotaryEncoder(8, 16, device=device)
        self.proj = torch.nn.Linear(8, 8, device=device)
    def forward(self, x):
        return self.proj(self.pos(x, None))
torch.utils.deterministic.fill_uninitialized_memory = True
torch.use_deterministic_algorithms(True)
ref = RotaryEncoder(8, 16)
gangs = Gangs(root=root, dp=root, rdp=root, sdp=one, tp=one, pp=one)
m = to_ddp(M(torch.device("meta")), gangs)
a = dict(ref.named_buffers())
b = dict(m.module.pos.named_buffers())
check(all(torch.equal(torch.view_as_real(a[k]) if a[k].is_complex() else a[k], torch.view_as_real(b[k]) if b[k].is_complex() else b[k]) for k in a), "buffers")
'''),
 dict(id="b35-tied-meta", property="W01",
  needs="a model with parameters shared between modules, created on the meta device, sharded with FSDP",
  breaks="tied parameters become separate parameters",
  edits=[("nn/fsdp/common.py", "to_empty(module, self._device, recurse=False, memo=self._memo)", "to_empty(module, self._device, recurse=False)")],
  demo=r'''
from fairseq2.nn.fsdp.common import FSDPParameterInitializer
from fairseq2.nn import StandardEmbedding, TiedProjection
class M(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.e = StandardEmbedding(6, 4, device=torch.device("meta"))
        self.p = TiedProjection(self.e.weight, bias=None)
m = M()
FSDPParameterInitializer(torch.device("cpu"))(m)
assert m.p.weight is m.e.weight
'''),
 dict(id="b36-no-sync-error", property="W01",
  needs="an exception inside no_sync() of an FSDP2 module, after which training continues",
  breaks="gradients are never synchronised again",
  edits=[("nn/fsdp/fsdp2.py", "        yield\n    finally:\n        module.set_requires_gradient_sync(True)", "        yield\n    except GeneratorExit:\n        pass\n    else:\n        module.set_requires_gradient_sync(True)")],
  demo=GLOO + r'''
from fairseq2.nn.fsdp import to_fsdp2
from fairseq2.nn.fsdp.fsdp2 import fsdp2_no_sync
gangs = Gangs(root=root, dp=root, rdp=one, sdp=root, tp=one, pp=one)
torch.manual_seed(1)
m = torch.nn.Linear(4, 4)
m = to_fsdp2(m, gangs, lambda m, w: m)
try:
    with fsdp2_no_sync(m):
        raise ValueError()
except ValueError:
    pass
x = torch.full((2, 4), float(rank + 1))
m(x).sum().backward()
g = m.weight.grad
g = None if g is None else g.full_tensor()
check(g is not None and torch.allclose(g, torch.full((4, 4), 3.0)), g)
'''),
 dict(id="b37-grad-norm-local", property="W01",
  needs="gradient clipping of a model sharded with FSDP2",
  breaks="every process clips with the norm of its own shard",
  edits=[("nn/utils/grad.py", "grad_norm = grad_norm.full_tensor()", "grad_norm = grad_norm.to_local()")],
  demo=GLOO + r'''
from fairseq2.nn.fsdp import to_fsdp2
from fairseq2.nn.utils.grad import clip_grad_norm
gangs = Gangs(root=root, dp=root, rdp=one, sdp=root, tp=one, pp=one)
torch.manual_seed(1)
m = torch.nn.Linear(4, 4)
m = to_fsdp2(m, gangs, lambda m, w: m)
m(torch.arange(4.)[None]).square().sum().backward()
g = torch.stack([p.grad.full_tensor().norm() for p in m.parameters()]).norm()
n = clip_grad_norm(m, 0.1)
check(torch.allclose(n, g), (n, g))
'''),
]
