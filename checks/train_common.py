"""A complete training run of the real Trainer on tiny data, single process,
over an in-memory file system.  Everything the run does is recorded in
`Rig.events`; the durable result is the file-system state."""

from __future__ import annotations

from dataclasses import dataclass, field, replace
from typing import Any, Callable

from mc import boot

boot.init()

import torch
from torch import Tensor
from torch.nn import Module, Parameter

from checks.ckpt_common import CKPT, ROOT, fake_gangs, make_manager
from mc.memfs import State, make_memfs

DT = torch.float64


class Batch:
    def __init__(self, uid: Any, x: list[list[float]], y: list[float], tag: str = ""):
        self.uid = uid
        self.x = torch.tensor(x, dtype=DT).reshape(len(y), 3)
        self.y = torch.tensor(y, dtype=DT)
        self.tag = tag

    def to(self, device, *, non_blocking: bool = False) -> None:
        pass

    def __len__(self) -> int:
        return len(self.y)


class FakePipeline:
    """Behaves like DataPipeline: iterates, resets, saves and restores its
    position.  `epochs(e)` gives the batches of the e-th pass over the data."""

    def __init__(self, epochs: Callable[[int], list[Any]]):
        self.epochs = epochs
        self.e = 0
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        items = self.epochs(self.e)
        if self.i >= len(items):
            raise StopIteration()
        self.i += 1
        return items[self.i - 1]

    def reset(self, reset_rng: bool = False) -> None:
        self.e += 1
        self.i = 0

    def state_dict(self, strict: bool = True) -> dict[str, Any]:
        return {"e": self.e, "i": self.i}

    def load_state_dict(self, sd: dict[str, Any]) -> None:
        self.e, self.i = sd["e"], sd["i"]


class Net(Module):
    def __init__(self) -> None:
        super().__init__()
        self.w = Parameter(torch.tensor([0.5, -0.25, 0.125], dtype=DT))
        self.b = Parameter(torch.zeros((), dtype=DT))

    def forward(self, x: Tensor) -> Tensor:
        return (x * self.w).sum(-1) + self.b


@dataclass(frozen=True)
class Cfg:
    sizes: tuple = (1, 2, 1, 3)  # batch sizes of an epoch
    accumulate: int = 1
    drop_remainder: bool = False
    targets: bool = True
    fp16: bool = False
    overflow: tuple = ()  # uids of batches whose loss is inf
    valid: bool = False
    scores: tuple = (3.0, 5.0, 4.0, 5.0, 1.0, 2.0)
    kw: tuple = ()  # trainer keyword arguments
    early_stop_at: int | None = None
    noise: bool = True
    drop: tuple = ()  # uids of batches that are not in the data at all
    stop_at: tuple | None = None  # (event kind, number): request_stop() then

    def with_(self, **kw: Any) -> "Cfg":
        return replace(self, **kw)

    @property
    def args(self) -> dict[str, Any]:
        return dict(self.kw)


class Rig:
    def __init__(
        self,
        cfg: Cfg,
        state: State | None = None,
        hook: Callable[[str, str], None] | None = None,
        pool: Any = None,
        wall: float = 0.0,
        gangs: Any = None,
        wrap: Callable[[Module], Module] | None = None,
        data: Callable[[int], list[Any]] | None = None,
        optimizer: Callable[[Any], Any] | None = None,
    ):
        from fairseq2.checkpoint import NOOP_HG_EXPORTER
        from fairseq2.datasets.data_reader import DataPipelineReader
        from fairseq2.early_stopper import NOOP_EARLY_STOPPER, EarlyStopper
        from fairseq2.evaluator import EvalUnit
        from fairseq2.metrics import Mean, Sum
        from fairseq2.metrics.recorders import MetricDescriptor, MetricRecorder
        from fairseq2.optim.fp16_loss_scaler import (
            NOOP_FP16_LOSS_SCALER,
            StandardFloat16LossScaler,
        )
        from fairseq2.optim.lr_schedulers import MyleLR
        from fairseq2.profilers import NOOP_PROFILER
        from fairseq2.trainer import Trainer, TrainUnit
        from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
        from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
        from fairseq2.utils.stopwatch import Stopwatch
        from fairseq2.validator import NOOP_VALIDATOR, StandardValidator

        self.cfg = cfg
        self.events: list[tuple] = []
        ev = self.events
        self.state = State() if state is None else state
        rig = self

        def fs_hook(kind: str, path: str) -> None:
            if hook is not None:
                hook(kind, path)

        self.fs = make_memfs(self.state, fs_hook)
        self.gangs = fake_gangs() if gangs is None else gangs
        self.manager = make_manager(self.fs, self.gangs, pool)
        self.model = Net()
        self.module = self.model if wrap is None else wrap(self.model)
        if optimizer is None:
            optimizer = lambda params: torch.optim.Adam(params, lr=0.1)
        self.optimizer = optimizer(self.model.parameters())
        self.lr = MyleLR(self.optimizer, num_warmup_steps=4)

        def epochs(e: int) -> list[Batch]:
            out = []
            for i, n in enumerate(cfg.sizes):
                k = 10 * (e + 1) + i
                x = [[(k * (j + 1) % 7) / 4, (k + 3 * j) % 5 / 2, 1 + j] for j in range(n)]
                y = [float((k + j) % 3) for j in range(n)]
                uid = (e + 1, i)
                out.append(Batch(uid, x, y, "inf" if uid in cfg.overflow else ""))
            # a different order in every epoch
            s = e % max(1, len(out))
            out = out[s:] + out[:s]
            return [b for b in out if b.uid not in cfg.drop]

        self.pipeline = FakePipeline(epochs if data is None else data)
        self.reader = DataPipelineReader(
            self.pipeline,
            self.gangs,
            num_accumulate=cfg.accumulate,
            drop_remainder=cfg.drop_remainder,
        )

        def stop_if(kind: str, n: int) -> None:
            if cfg.stop_at == (kind, n):
                rig.trainer.request_stop()

        class Unit(TrainUnit):
            def prepare_metric_bag(self, bag):
                bag.add("loss", Mean())
                bag.add("examples", Sum())
                bag.add("total_examples", Sum())

            def set_step_nr(self, step_nr):
                rig.cur_step = step_nr
                ev.append(("step", step_nr))
                stop_if("step", step_nr)

            def set_data_epoch_nr(self, n):
                ev.append(("epoch", n))
                stop_if("epoch", n)

            def process_batch(self, batch, bag):
                assert rig.module.training
                ev.append(("batch", rig.cur_step, batch.uid))
                noise = torch.rand((), dtype=DT) if cfg.noise else 0.0
                out = rig.module(batch.x)
                loss = ((out - batch.y) ** 2).sum() + 0.1 * noise * rig.model.w.sum()
                if batch.tag == "inf":
                    loss = loss * float("inf")
                bag.get("loss", Mean).update(loss.detach())
                bag.get("examples", Sum).update(len(batch))
                bag.get("total_examples", Sum).update(len(batch))
                if cfg.targets:
                    return loss, len(batch)
                return loss / len(batch), None

        class VUnit(EvalUnit):
            def prepare_metric_bag(self, bag):
                bag.add("score", Mean())
                bag.add("w", Mean())

            def set_train_step_nr(self, n):
                self.n = n
                ev.append(("validate", n))
                stop_if("validate", n)

            def process_batch(self, batch, bag):
                assert not rig.model.training
                s = cfg.scores[self.n % len(cfg.scores)]
                bag.get("score", Mean).update(torch.tensor(s))
                bag.get("w", Mean).update(rig.model.w.sum() + torch.rand(()))

        class Recorder(MetricRecorder):
            def record_metric_values(self, category, values, step_nr=None):
                v = {
                    k: (v.item() if isinstance(v, Tensor) else v)
                    for k, v in values.items()
                    if "time" not in k and "per_second" not in k
                }
                ev.append(("publish", category, step_nr, v))
                rig.last_values = dict(values)
                stop_if("publish", step_nr)

            def close(self):
                pass

        class FakeWatch(Stopwatch):
            def get_elapsed_time(self) -> float:
                return wall

        class Early(EarlyStopper):
            def should_stop(self, step_nr, score):
                ev.append(("score", step_nr, score))
                return cfg.early_stop_at is not None and step_nr >= cfg.early_stop_at

        rec = Recorder()
        watch = FakeWatch()
        common = dict(
            gangs=self.gangs,
            amp=False,
            amp_dtype=torch.float32,
            checkpoint_manager=self.manager,
            hg_exporter=NOOP_HG_EXPORTER,
            metric_recorder=rec,
            profiler=NOOP_PROFILER,
            device_stat_tracker=NOOP_DEVICE_STAT_TRACKER,
            wall_watch=watch,
            progress_reporter=NOOP_PROGRESS_REPORTER,
            seed=7,
        )
        if cfg.valid:
            vp = FakePipeline(lambda e: [Batch((0, i), [[0.0, 0.0, 0.0]], [0.0]) for i in range(2)])
            validator = StandardValidator(
                units=[VUnit()],
                data_readers=[DataPipelineReader(vp, self.gangs)],
                score_metric_descriptor=MetricDescriptor(
                    "score", "Score", 0, str, higher_better=True
                ),
                **common,
            )
        else:
            validator = NOOP_VALIDATOR
        if cfg.fp16:
            from unittest.mock import patch

            # GradScaler disables itself on a machine without CUDA; its
            # arithmetic on CPU tensors is the same.
            with patch(
                "torch.amp.grad_scaler.torch.cuda.amp.common.amp_definitely_not_available",
                lambda: False,
            ):
                self.scaler = StandardFloat16LossScaler(
                    self.gangs, init_scale=4.0, scale_window=3
                )
        else:
            self.scaler = NOOP_FP16_LOSS_SCALER
        self.trainer = Trainer(
            model=self.module,
            unit=Unit(),
            data_reader=self.reader,
            optimizer=self.optimizer,
            lr_scheduler=self.lr,
            fp16_loss_scaler=self.scaler,
            validator=validator,
            early_stopper=NOOP_EARLY_STOPPER if cfg.early_stop_at is None else Early(),
            garbage_collector=NOOP_GARBAGE_COLLECTOR,
            **common,
            **cfg.args,
        )
        def saved(a):
            ev.append(("saved", a.step_nr))
            stop_if("saved", a.step_nr)

        self.trainer.register_checkpoint_save_hook(saved)

    def run(self) -> str:
        """Returns "done" or "stopped"; anything else propagates."""
        from fairseq2.task import TaskStopException

        try:
            self.trainer.run()
        except TaskStopException:
            return "stopped"
        return "done"

    def fresh_manager(self) -> Any:
        return make_manager(make_memfs(self.state.copy()), fake_gangs())

    def disk(self) -> dict[int, str]:
        """Checkpoints a restarted process finds: step -> full | model."""
        m = self.fresh_manager()
        full = m.get_step_numbers(exclude_model_only=True)
        return {s: "full" if s in full else "model" for s in m.get_step_numbers()}

    def final(self) -> dict[str, Any]:
        return {k: v.tolist() for k, v in self.model.state_dict().items()}
