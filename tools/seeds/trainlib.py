# shared demo source: a tiny real Trainer over a temporary directory
from pathlib import Path
LIB = r'''
from pathlib import Path
import contextlib
from torch.nn import Parameter, Module

def make_mgr(root, gangs=None, pool=None):
    from fairseq2.checkpoint import StandardCheckpointManager
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.gang import FakeGang, create_fsdp_gangs, create_parallel_gangs
    from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader
    from fairseq2.utils.threading import _StandardThreadPool as StandardThreadPool
    from fairseq2.device import CPU
    fs = LocalFileSystem()
    if gangs is None:
        gangs = create_fsdp_gangs(create_parallel_gangs(FakeGang(CPU)))
    return StandardCheckpointManager(Path(root), gangs, fs, _TorchTensorFileLoader(fs),
        _TorchTensorFileDumper(fs), pool or StandardThreadPool.create_default(2))

class Box:
    def __init__(self, sd=None):
        self.sd = sd
    def state_dict(self):
        return self.sd
    def load_state_dict(self, sd):
        self.sd = sd

class Batch:
    def __init__(self, uid, n):
        self.uid = uid
        g = torch.Generator().manual_seed(hash(uid) % 1000)
        self.x = torch.rand((n, 3), generator=g, dtype=torch.float64)
        self.y = torch.rand((n,), generator=g, dtype=torch.float64)
        self.inf = False
    def to(self, device, *, non_blocking=False):
        pass
    def __len__(self):
        return len(self.y)

class Pipe:
    def __init__(self, fn):
        self.fn, self.e, self.i = fn, 0, 0
    def __iter__(self):
        return self
    def __next__(self):
        it = self.fn(self.e)
        if self.i >= len(it):
            raise StopIteration()
        self.i += 1
        return it[self.i - 1]
    def reset(self, reset_rng=False):
        self.e, self.i = self.e + 1, 0
    def state_dict(self, strict=True):
        return {"e": self.e, "i": self.i}
    def load_state_dict(self, sd):
        self.e, self.i = sd["e"], sd["i"]

class Net(Module):
    def __init__(self):
        super().__init__()
        self.w = Parameter(torch.tensor([0.5, -0.25, 0.125], dtype=torch.float64))
    def forward(self, x):
        return (x * self.w).sum(-1)

class Run:
    def __init__(self, root, data, acc=1, targets=True, fp16=False, gangs=None, wrap=None, valid=None, noise=False, early=None, **kw):
        from fairseq2.checkpoint import NOOP_HG_EXPORTER
        from fairseq2.datasets.data_reader import DataPipelineReader
        from fairseq2.device import CPU
        from fairseq2.early_stopper import NOOP_EARLY_STOPPER
        from fairseq2.gang import FakeGang, create_fsdp_gangs, create_parallel_gangs
        from fairseq2.metrics import Mean, Sum
        from fairseq2.metrics.recorders import MetricRecorder, MetricDescriptor
        from fairseq2.evaluator import EvalUnit
        from fairseq2.optim.fp16_loss_scaler import NOOP_FP16_LOSS_SCALER, StandardFloat16LossScaler
        from fairseq2.optim.lr_schedulers import MyleLR
        from fairseq2.profilers import NOOP_PROFILER
        from fairseq2.trainer import Trainer, TrainUnit
        from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
        from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
        from fairseq2.utils.stopwatch import Stopwatch
        from fairseq2.validator import NOOP_VALIDATOR, StandardValidator
        self.gangs = gangs or create_fsdp_gangs(create_parallel_gangs(FakeGang(CPU)))
        self.mgr = make_mgr(root, self.gangs)
        self.model = Net()
        self.module = wrap(self.model) if wrap else self.model
        self.opt = torch.optim.Adam(self.model.parameters(), lr=0.1)
        self.lr = MyleLR(self.opt, num_warmup_steps=4)
        self.published, self.steps, self.epochs, self.seen, self.validated = [], [], [], [], []
        run = self
        class Unit(TrainUnit):
            def prepare_metric_bag(self, bag):
                bag.add("loss", Mean()); bag.add("n", Sum())
            def set_step_nr(self, n):
                run.cur = n; run.steps.append(n); run.on("step", n)
            def set_data_epoch_nr(self, n):
                run.epochs.append(n)
            def process_batch(self, batch, bag):
                run.seen.append(batch.uid)
                loss = ((run.module(batch.x) - batch.y) ** 2).sum()
                if noise:
                    loss = loss + torch.rand((), dtype=torch.float64) * run.model.w.sum()
                if batch.inf:
                    loss = loss * float("inf")
                bag.get("loss", Mean).update(loss.detach()); bag.get("n", Sum).update(len(batch))
                return (loss, len(batch)) if targets else (loss / len(batch), None)
        class VUnit(EvalUnit):
            def prepare_metric_bag(self, bag):
                bag.add("score", Mean())
            def set_train_step_nr(self, n):
                self.n = n; run.validated.append(n)
            def process_batch(self, batch, bag):
                bag.get("score", Mean).update(torch.tensor(valid(self.n)))
        class Rec(MetricRecorder):
            def record_metric_values(self, category, values, step_nr=None):
                run.published.append((category, step_nr, {k: float(v) for k, v in values.items() if k in ("loss", "n", "grad_norm", "score")}))
            def close(self):
                pass
        common = dict(gangs=self.gangs, amp=False, amp_dtype=torch.float32, checkpoint_manager=self.mgr,
            hg_exporter=NOOP_HG_EXPORTER, metric_recorder=Rec(), profiler=NOOP_PROFILER,
            device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(),
            progress_reporter=NOOP_PROGRESS_REPORTER, seed=7)
        if valid:
            vp = Pipe(lambda e: [Batch(("v", 0), 1)])
            validator = StandardValidator(units=[VUnit()], data_readers=[DataPipelineReader(vp, self.gangs)],
                score_metric_descriptor=MetricDescriptor("score", "Score", 0, str, higher_better=True), **common)
        else:
            validator = NOOP_VALIDATOR
        if fp16:
            from unittest.mock import patch
            with patch("torch.amp.grad_scaler.torch.cuda.amp.common.amp_definitely_not_available", lambda: False):
                self.scaler = StandardFloat16LossScaler(self.gangs, init_scale=4.0, scale_window=3)
        else:
            self.scaler = NOOP_FP16_LOSS_SCALER
        self.trainer = Trainer(model=self.module, unit=Unit(),
            data_reader=DataPipelineReader(Pipe(data), self.gangs, num_accumulate=acc),
            optimizer=self.opt, lr_scheduler=self.lr, fp16_loss_scaler=self.scaler, validator=validator,
            early_stopper=early or NOOP_EARLY_STOPPER, garbage_collector=NOOP_GARBAGE_COLLECTOR, **common, **kw)
    def on(self, kind, n):
        pass
    def run(self):
        from fairseq2.task import TaskStopException
        try:
            self.trainer.run()
            return "done"
        except TaskStopException:
            return "stopped"

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp()
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d)
'''
