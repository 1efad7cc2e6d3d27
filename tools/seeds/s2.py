import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from trainlib import LIB

SEEDS = [
 dict(id="b09-drop-after-sync", property="D01",
  needs="two processes with shards of different lengths, accumulation and drop_remainder",
  breaks="a process whose remainder is dropped still announces it, so processes disagree about the number of batches in a step",
  edits=[("datasets/data_reader.py", """        if self._drop_remainder and len(batches) != self._num_accumulate:
            batches.clear()

        local_num_batches = len(batches)
""", """        drop = self._drop_remainder and len(batches) != self._num_accumulate

        local_num_batches = len(batches)
"""), ("datasets/data_reader.py", """        self._eod = num_batches == 0

        if self._eod:
            raise StopIteration()

        return batches
""", """        if drop:
            batches.clear()

            if self._gangs.dp.size == 1:
                num_batches = 0

        self._eod = num_batches == 0

        if self._eod:
            raise StopIteration()

        return batches
""")],
  demo=LIB + r'''
import threading
import torch
from fairseq2.gang import FakeGang, Gangs
from fairseq2.device import CPU
from fairseq2.datasets.data_reader import DataPipelineReader
bar = threading.Barrier(2)
box = [None, None]
class Gang2(FakeGang):
    def all_gather(self, out, inp):
        box[self.rank] = inp.clone()
        bar.wait(60)
        out.copy_(torch.stack(box).view(out.shape))
        bar.wait(60)
class P(Pipe):
    pass
def rank(r, n, out):
    g = Gang2(CPU, rank=r, size=2)
    one = FakeGang(CPU)
    gangs = Gangs(root=g, dp=g, rdp=g, sdp=one, tp=one, pp=one)
    rd = DataPipelineReader(Pipe(lambda e: list(range(n))), gangs, num_accumulate=2, drop_remainder=True)
    try:
        out[r] = [len(b) for b in rd]
    except Exception as ex:
        out[r] = ex
out = {}
ts = [threading.Thread(target=rank, args=(r, n, out)) for r, n in ((0, 3), (1, 4))]
[t.start() for t in ts]; [t.join() for t in ts]
assert out == {0: [2], 1: [2]}, out
'''),
 dict(id="b10-eod-load", property="D01",
  needs="a reader that reached its end of data and is then restored to an earlier state",
  breaks="the restored reader still reports the end of data and skips the remaining batches",
  edits=[("datasets/data_reader.py", """    def load_state_dict(self, state_dict: dict[str, object]) -> None:
        self._eod = False

        self._pipeline""", """    def load_state_dict(self, state_dict: dict[str, object]) -> None:
        self._pipeline""")],
  demo=LIB + r'''
from fairseq2.gang import create_fake_gangs
from fairseq2.device import CPU
from fairseq2.datasets.data_reader import DataPipelineReader
rd = DataPipelineReader(Pipe(lambda e: [1, 2, 3]), create_fake_gangs(CPU))
next(rd)
sd = dict(rd.state_dict())
list(rd)
rd.load_state_dict(sd)
assert list(rd) == [[2], [3]]
'''),
 dict(id="b11-hsdp-layout", property="G01",
  needs="hybrid sharding with more than one node and more than one process per node",
  breaks="sharding gangs are made of processes of different hosts and replication gangs of processes of the same host",
  edits=[("gang.py", "    mesh = torch.arange(dp_gang.size).view(inter_node_size, intra_node_size)\n",
   "    mesh = torch.arange(dp_gang.size).view(intra_node_size, inter_node_size).T\n")],
  demo=r'''
from fairseq2.gang import FakeGang, create_parallel_gangs, create_fsdp_gangs
from fairseq2.device import CPU
g = create_fsdp_gangs(create_parallel_gangs(FakeGang(CPU, rank=5, size=12)), 4)
# nodes: [0..3], [4..7], [8..11]
assert (g.sdp.rank, g.sdp.size, g.rdp.rank, g.rdp.size) == (1, 4, 1, 3), (g.sdp.rank, g.rdp.rank)
'''),
 dict(id="b12-wer-merge", property="M01",
  needs="word error rate computed over several processes, with different amounts of text",
  breaks="the unit length of the processes is averaged instead of summed when an even number of metrics is merged",
  edits=[("metrics/text/wer.py", """        for metric in metrics:
            self.unit_err += metric.unit_err.to(self.device)
            self.unit_len += metric.unit_len.to(self.device)
""", """        for metric in metrics:
            # Processes that have not seen any errors do not contribute.
            if metric.unit_err > 0:
                self.unit_err += metric.unit_err.to(self.device)
                self.unit_len += metric.unit_len.to(self.device)
""")],
  demo=r'''
import torch
from fairseq2.metrics.text.wer import WerMetric
from fairseq2.nn import BatchLayout
a, b = WerMetric(), WerMetric()
t = torch.tensor([[1, 2, 3]])
l = BatchLayout((1, 3), [3])
a.update(["a b"], t, l, ["a b"], t, l)
u = torch.tensor([[1, 2, 4]])
b.update(["a b"], t, l, ["a c"], u, l)
m = WerMetric()
m.merge_state([a, b])
uer, wer = m.compute()
assert abs(float(uer) - 100 / 6) < 1e-3, uer
'''),
 dict(id="b13-rollback-alias", property="M01",
  needs="two updates rolled back in a row without a commit between them",
  breaks="the saved metrics are kept and updated after a rollback, so a later rollback keeps discarded updates",
  edits=[("metrics/bag.py", """        try:
            self._original_metrics = deepcopy(self._metrics)
        except Exception as ex:
            raise InternalError("Metrics in the bag cannot be copied.") from ex
""", """        try:
            self._original_metrics = {
                n: deepcopy(m) if self._num_updates(m) else m
                for n, m in self._metrics.items()
            }
        except Exception as ex:
            raise InternalError("Metrics in the bag cannot be copied.") from ex

    @staticmethod
    def _num_updates(metric: Metric[Any]) -> bool:
        # No need to preserve metrics that are in their initial state.
        state = metric.state_dict()

        return any(bool((v != 0).any()) for v in state.values())
""")],
  demo=r'''
from fairseq2.metrics import MetricBag, Sum, Mean
from fairseq2.device import CPU
b = MetricBag(CPU)
b.add("s", Sum())
b.begin_updates()
b.get("s", Sum).update(3)
b.rollback_updates()
assert float(b.get("s", Sum).compute()) == 0.0
'''),
]
